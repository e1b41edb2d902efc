------------------------------ MODULE RepoPar -------------------------------
(* Concurrent programs: a state to start from and calls to run at once.    *)
(* Over every state of the small exhaustive model, all pairs of calls, each*)
(* classified by the specification: 1 when the order of the two matters    *)
(* (they do not commute), 0 when it does not.                              *)
EXTENDS RepoMC, SequencesExt

PDoc(k) == [id |-> 5, raw |-> k, toks |-> <<1, 4>>]
Fresh == "z"
PNames == Names \cup {Fresh}
ParCalls ==
   SetToSeq({Call("put", n, "", PDoc(11), <<>>) : n \in PNames})
   \o SetToSeq({Call("alias", a, n, NoDoc, <<>>) : a \in AliasNames, n \in Names})
   \o SetToSeq({Call("unalias", a, n, NoDoc, <<>>) : a \in AliasNames, n \in Names \cup {""}})
   \o SetToSeq({Call("rename", o, n, NoDoc, <<>>) : o \in Names, n \in PNames})
   \o SetToSeq({Call("drop", n, "", NoDoc, <<>>) : n \in Names})
   \o SetToSeq({Call("search", n, "all", NoDoc, <<>>) : n \in Names})
   \o SetToSeq({Call("search", n, "hits", NoDoc, <<1>>) : n \in Names})
   \o SetToSeq({Call("has", n, "", NoDoc, <<>>) : n \in Names})
   \o SetToSeq({Call("hasalias", n, "", NoDoc, <<>>) : n \in AliasNames})
   \o <<Call("list", "", "", NoDoc, <<>>), Call("listal", "", "", NoDoc, <<>>),
        Call("string", "", "", NoDoc, <<>>)>>

(* the second of two equal puts stores another document *)
Second(c) == IF c.k = "put" THEN [c EXCEPT !.d = PDoc(12)] ELSE c

Commute(s, a, b) ==
  LET ab1 == Apply(s, a)  ab2 == Apply(ab1.st, b)
      ba1 == Apply(s, b)  ba2 == Apply(ba1.st, a)
  IN ab1.res = ba2.res /\ ab2.res = ba1.res /\ ab2.st = ba2.st

Writes == {"put", "alias", "unalias", "rename", "drop"}
NC == Len(ParCalls)
Pairs(s) == {<<i, j, IF Commute(s, ParCalls[i], Second(ParCalls[j])) THEN 0 ELSE 1>> :
               i \in 1..NC, j \in {j \in 1..NC : TRUE}}
PairsOf(s) == {p \in Pairs(s) : p[1] <= p[2] /\ (ParCalls[p[1]].k \in Writes \/ ParCalls[p[2]].k \in Writes)}

EmitCalls == ToJson([calls |-> ParCalls])
EmitPairs == (st = EmptyRepo => PrintT(EmitCalls)) /\ PrintT(ToJson([s |-> st, pairs |-> PairsOf(st)]))
=============================================================================
