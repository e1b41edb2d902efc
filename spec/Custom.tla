------------------------------- MODULE Custom -------------------------------
(* The repository over index implementations its caller supplies (C21).    *)
(* An index is an instance the builder made; own says which instance a name *)
(* holds, born under which name each instance was built.  A put or search   *)
(* is delivered to instances; what instances answer is passed on.           *)
EXTENDS Repo, Json
CONSTANTS Names, AliasNames, MaxInst, EmitOn
VARIABLES st, own, born, step
vars == <<st, own, born, step>>

Doc1 == [id |-> 1, raw |-> 1, toks |-> <<>>]

(* instances a call is delivered to, in the order of attachment *)
Deliver(s, o, b, c) ==
  CASE c.k = "put"    -> IF Known(s, c.n) THEN Map(Targets(s, c.n), LAMBDA x : o[x]) ELSE <<Len(b) + 1>>
    [] c.k = "search" -> Map(Targets(s, c.n), LAMBDA x : o[x])
    [] OTHER          -> <<>>

Own(s, o, b, c) ==
  CASE c.k = "put" /\ ~Known(s, c.n) -> (c.n :> (Len(b) + 1)) @@ o
    [] c.k = "rename" /\ IsIndex(s, c.n) /\ c.n # c.m -> (c.m :> o[c.n]) @@ Without(o, c.n)
    [] c.k = "drop" /\ IsIndex(s, c.n) -> Without(o, c.n)
    [] OTHER -> o
Born(s, b, c) == IF c.k = "put" /\ ~Known(s, c.n) THEN Append(b, c.n) ELSE b

Calls == {Call("put", n, "", Doc1, <<>>) : n \in Names \cup AliasNames}
   \cup {Call("search", n, "all", NoDoc, <<>>) : n \in Names \cup AliasNames}
   \cup {Call("alias", a, n, NoDoc, <<>>) : a \in AliasNames, n \in Names}
   \cup {Call("unalias", a, n, NoDoc, <<>>) : a \in AliasNames, n \in Names \cup {""}}
   \cup {Call("rename", o, n, NoDoc, <<>>) : o \in Names, n \in Names \cup AliasNames}
   \cup {Call("drop", n, "", NoDoc, <<>>) : n \in Names \cup AliasNames}

(* documents play no part: keep the state small *)
Lean(s) == [s EXCEPT !.ix = [n \in DOMAIN s.ix |-> <<>>]]
Step(c) == /\ st' = Lean(Apply(st, c).st)
           /\ own' = Own(st, own, born, c)
           /\ born' = Born(st, born, c)
           /\ step' = step + 1
Line(c) == ToJson([i |-> step, c |-> c, new |-> c.k = "put" /\ ~Known(st, c.n), err |-> c.k = "search" /\ ~Known(st, c.n),
                   del |-> Deliver(st, own, born, c), born |-> Born(st, born, c),
                   own |-> {Own(st, own, born, c)[n] : n \in DOMAIN Own(st, own, born, c)}])

Init == st = EmptyRepo /\ own = EmptyF /\ born = <<>> /\ step = 0
Next == \E c \in Calls : Len(Born(st, born, c)) <= MaxInst /\ Step(c)
Spec == Init /\ [][Next]_vars
View == <<st, own, born>>

Rnd(S) == RandomElement(S)
RndName(s) == LET D == DOMAIN s.ix \cup DOMAIN s.al IN IF D # {} /\ Rnd(1..10) <= 7 THEN Rnd(D) ELSE Rnd(Names \cup AliasNames)
RndIx(s) == IF DOMAIN s.ix # {} /\ Rnd(1..10) <= 8 THEN Rnd(DOMAIN s.ix) ELSE Rnd(Names)
RndCall(s) ==
  LET p == Rnd(1..100) IN
  CASE p <= 30 -> Call("put", RndName(s), "", Doc1, <<>>)
    [] p <= 60 -> Call("search", RndName(s), "all", NoDoc, <<>>)
    [] p <= 82 -> Call("alias", Rnd(AliasNames), RndIx(s), NoDoc, <<>>)
    [] p <= 86 -> Call("unalias", Rnd(AliasNames), Rnd(Names \cup {""}), NoDoc, <<>>)
    [] p <= 94 -> Call("rename", RndIx(s), Rnd(Names \cup AliasNames), NoDoc, <<>>)
    [] OTHER   -> Call("drop", RndName(s), "", NoDoc, <<>>)
NextSim == \E c \in {RndCall(st)} : Step(c) /\ PrintT(Line(c))
SpecSim == Init /\ [][NextSim]_vars

InvOwn == /\ DOMAIN own = DOMAIN st.ix
          /\ \A n, m \in DOMAIN own : own[n] = own[m] => n = m
          /\ \A n \in DOMAIN own : own[n] \in 1..Len(born)
(* no call is delivered twice to one instance *)
InvOnce == \A c \in Calls : LET d == Deliver(st, own, born, c) IN \A i, j \in 1..Len(d) : d[i] = d[j] => i = j
(* an instance leaves only by drop or replacement, and never comes back *)
StepGone == [][\A i \in 1..Len(born) : (\A n \in DOMAIN own : own[n] # i) => \A n \in DOMAIN own' : own'[n] # i]_vars
=============================================================================
