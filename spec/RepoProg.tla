------------------------------ MODULE RepoProg ------------------------------
(* Random concurrent programs (tlc -simulate): a random walk over          *)
(* repository states; at every state a program of two to four threads of   *)
(* one or two calls each is printed.                                       *)
EXTENDS Repo, Json
CONSTANTS Names, AliasNames, NTok, NId, MaxDocsTotal, MaxCalls
VARIABLES st, step
vars == <<st, step>>

Rnd(S) == RandomElement(S)
RndIx(s) == IF DOMAIN s.ix # {} /\ Rnd(1..10) <= 8 THEN Rnd(DOMAIN s.ix) ELSE Rnd(Names)
RndAl(s) == IF DOMAIN s.al # {} /\ Rnd(1..10) <= 7 THEN Rnd(DOMAIN s.al) ELSE Rnd(AliasNames)
RndAliased(s) == LET D == UNION {Range(s.al[a]) : a \in DOMAIN s.al} IN
                 IF D # {} /\ Rnd(1..10) <= 7 THEN Rnd(D) ELSE RndIx(s)
RndAny(s) == IF Rnd(1..2) = 1 THEN RndAl(s) ELSE RndIx(s)
RndDoc(r) == [id |-> Rnd(1..NId), raw |-> r, toks |-> [i \in 1..Rnd(1..3) |-> Rnd(1..NTok)]]

RECURSIVE SumLen(_, _)
SumLen(f, D) == IF D = {} THEN 0
                ELSE LET x == CHOOSE y \in D : TRUE IN Len(f[x]) + SumLen(f, D \ {x})

Write(s, r) ==
  LET p == Rnd(1..100) IN
  CASE p <= 30 -> Call("put", RndAny(s), "", RndDoc(r), <<>>)
    [] p <= 60 -> Call("alias", RndAl(s), RndIx(s), NoDoc, <<>>)
    [] p <= 70 -> Call("unalias", RndAl(s), RndAliased(s), NoDoc, <<>>)
    [] p <= 74 -> Call("unalias", RndAl(s), "", NoDoc, <<>>)
    [] p <= 88 -> Call("rename", RndAliased(s), Rnd(Names \cup AliasNames), NoDoc, <<>>)
    [] p <= 100 -> Call("drop", RndAliased(s), "", NoDoc, <<>>)
Read(s) ==
  LET p == Rnd(1..100) IN
  CASE p <= 50 -> Call("search", RndAny(s), "all", NoDoc, <<>>)
    [] p <= 65 -> Call("search", RndAny(s), Rnd({"hits", "linear"}), NoDoc, <<Rnd(1..NTok)>>)
    [] p <= 75 -> Call("list", "", "", NoDoc, <<>>)
    [] p <= 88 -> Call("listal", "", "", NoDoc, <<>>)
    [] p <= 91 -> Call("string", "", "", NoDoc, <<>>)
    [] p <= 95 -> Call("has", RndIx(s), "", NoDoc, <<>>)
    [] p <= 100 -> Call("hasalias", RndAl(s), "", NoDoc, <<>>)
AnyCall(s, r) == IF Rnd(1..100) <= 65 THEN Write(s, r) ELSE Read(s)

(* <<number of calls of each thread>> *)
Shapes == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<1, 1, 1>>, <<2, 2>>, <<1, 1, 2>>, <<1, 1, 1, 1>>}
Prog(s) == LET sh == Rnd(Shapes) IN
           [t \in 1..Len(sh) |-> [k \in 1..sh[t] |-> AnyCall(s, 100 + 10 * t + k)]]

(* states grow rich: indices, then aliases of several indices *)
Grow(s) ==
  LET full == SumLen(s.ix, DOMAIN s.ix) >= MaxDocsTotal
      p    == Rnd(1..100)
      w    == Write(s, step + 1)
  IN CASE p <= 40 /\ ~full -> Call("put", Rnd(Names), "", RndDoc(step + 1), <<>>)
       [] p <= 85           -> Call("alias", Rnd(AliasNames), RndIx(s), NoDoc, <<>>)
       [] w.k = "put" /\ full -> Call("drop", RndIx(s), "", NoDoc, <<>>)
       [] OTHER             -> w

Init == st = EmptyRepo /\ step = 0
Next == \E c \in {Grow(st)} :
          /\ st' = Apply(st, c).st
          /\ step' = step + 1
          /\ IF step < 4 THEN TRUE ELSE PrintT(ToJson([s |-> st, th |-> Prog(st)]))
Spec == Init /\ [][Next]_vars
InvAlias == AliasIntegrity(st)
=============================================================================
