------------------------------ MODULE RepoFault ------------------------------
(* Concurrent programs in which a search that reaches one index is given an *)
(* engine (or a query) that panics, while other calls run (C18, C27): over  *)
(* every state of the small model, the panicking call with every other      *)
(* call, two panicking calls with a write, and a panicking call in the      *)
(* middle of a thread.  By specification it is no call at all.              *)
EXTENDS RepoPar, Randomization
CONSTANTS Kind, Few

One(s) == {n \in Names : Len(Targets(s, n)) = 1}
Fault(n) == Call(Kind, n, "", NoDoc, <<1>>)
PC == Range(ParCalls)
Progs(s) ==
  LET F == {Fault(n) : n \in One(s)} W == {c \in PC : c.k \in Writes} IN
       {<< <<f>>, <<c>> >> : f \in F, c \in PC}
  \cup {<< <<f>>, <<f>>, <<c>> >> : f \in F, c \in W}
  \cup {<< <<f, Call("search", f.n, "all", NoDoc, <<>>)>>, <<c>> >> : f \in F, c \in W}
Some(s) == LET P == Progs(s) IN IF Cardinality(P) <= Few THEN P ELSE RandomSubset(Few, P)
EmitProgs == \A p \in Some(st) : PrintT(ToJson([s |-> st, th |-> p]))
=============================================================================
