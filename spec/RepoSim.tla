------------------------------ MODULE RepoSim -------------------------------
(* Long random behaviours of the abstract repository with large constants  *)
(* (tlc -simulate).  Every step is one random call; the line printed for it *)
(* holds the call, its result, and everything that is observable in the    *)
(* successor.  The driver performs the calls on the real code.             *)
(*                                                                         *)
(* held is what the caller has been given so far and keeps: the results of *)
(* reads.  Scribble steps are the caller overwriting a listing, a posting  *)
(* list or a token list it was given.  Neither may change anything (C13).  *)
EXTENDS Repo, Json
CONSTANTS Names, AliasNames, NTok, NId, MaxTok, MaxQ, MaxHeld,
          Skew  \* percentage of steps that are puts
VARIABLES st, held, step
vars == <<st, held, step>>

Rnd(S) == RandomElement(S)
RndSeq(n, k) == [i \in 1..Rnd(0..n) |-> Rnd(1..k)]
(* bias names towards existing ones: dead ends are cheap but rare *)
RndIx(s) == IF DOMAIN s.ix # {} /\ Rnd(1..10) <= 8 THEN Rnd(DOMAIN s.ix) ELSE Rnd(Names)
RndAl(s) == IF DOMAIN s.al # {} /\ Rnd(1..10) <= 6 THEN Rnd(DOMAIN s.al) ELSE Rnd(AliasNames)
RndAny(s) == LET D == DOMAIN s.ix \cup DOMAIN s.al IN
             IF D # {} /\ Rnd(1..10) <= 8 THEN Rnd(D) ELSE Rnd(Names \cup AliasNames)

(* an alias of the renamed/dropped index: prefer aliased indices *)
RndAliased(s) == LET D == UNION {Range(s.al[a]) : a \in DOMAIN s.al} IN
                 IF D # {} /\ Rnd(1..10) <= 5 THEN Rnd(D) ELSE RndIx(s)

(* a document like none before, or one that is stored already once more *)
Stored(s) == UNION {Range(s.ix[n]) : n \in DOMAIN s.ix}
RndDoc(s) == IF Stored(s) # {} /\ Rnd(1..7) = 1 THEN Rnd(Stored(s))
             ELSE [id |-> Rnd(1..NId), raw |-> step + 1, toks |-> RndSeq(MaxTok, NTok)]

Rest(s) ==
  LET p == Rnd(1..100) IN
  CASE p <= 34 -> Call("alias", RndAl(s), RndIx(s), NoDoc, <<>>)
    [] p <= 46 -> Call("unalias", RndAl(s), RndAliased(s), NoDoc, <<>>)
    [] p <= 50 -> Call("unalias", RndAl(s), "", NoDoc, <<>>)
    [] p <= 60 -> Call("rename", RndAliased(s), Rnd(Names \cup AliasNames), NoDoc, <<>>)
    [] p <= 67 -> Call("drop", RndAliased(s), "", NoDoc, <<>>)
    [] p <= 83 -> Call("search", RndAny(s), Rnd({"hits", "linear", "all", "zero"}), NoDoc, RndSeq(MaxQ, NTok))
    [] p <= 87 -> Call("list", "", "", NoDoc, <<>>)
    [] p <= 91 -> Call("listal", "", "", NoDoc, <<>>)
    [] p <= 92 -> Call("string", "", "", NoDoc, <<>>)
    [] p <= 96 -> Call("scriblist", "", "", NoDoc, <<>>)
    [] p <= 100 -> Call("scribeng", RndAny(s), "", NoDoc, RndSeq(MaxQ, NTok))

RndCall(s) == IF Rnd(1..100) <= Skew
              THEN Call("put", RndAny(s), "", RndDoc(s), <<>>)
              ELSE Rest(s)

Reads == {"search", "list", "listal"}
Scrib == {"scriblist", "scribeng"}

AllNames == Names \cup AliasNames
Show(s, q1, q2) ==
  [n \in AllNames |->
     [err |-> ~Known(s, n), isx |-> IsIndex(s, n), isa |-> IsAlias(s, n),
      all |-> Search(s, n, "all", <<>>).rows,
      h1  |-> Search(s, n, "hits", q1).rows,
      l1  |-> Search(s, n, "linear", q1).rows,
      h2  |-> Search(s, n, "hits", q2).rows]]

Init == st = EmptyRepo /\ held = <<>> /\ step = 0
Next ==
  \E c \in {RndCall(st)} : \E q1 \in {RndSeq(MaxQ, NTok)}, q2 \in {RndSeq(2, NTok)} :
    LET a == IF c.k \in Scrib THEN R(st, TRUE) ELSE Apply(st, c) IN
    /\ st' = a.st
    /\ step' = step + 1
    /\ held' = IF c.k \in Reads /\ Len(held) < MaxHeld THEN Append(held, a.res) ELSE held
    /\ PrintT(ToJson([i |-> step, pre |-> st, c |-> c, r |-> a.res, t |-> a.st,
                      dix |-> DesigIx(st, c), dal |-> DesigAl(st, c),
                      q1 |-> q1, q2 |-> q2, show |-> Show(a.st, q1, q2)]))
Spec == Init /\ [][Next]_vars

(* One alias growing to every size up to MaxFan indices and shrinking again,*)
(* with puts and searches through it at the sizes FanAt.                    *)
CONSTANTS MaxFan, FanAt
FA == "a"
FSize(s) == IF IsAlias(s, FA) THEN Len(s.al[FA]) ELSE 0
Loose(s) == {n \in DOMAIN s.ix : ~(IsAlias(s, FA) /\ Has(s.al[FA], n))}
VARIABLES phase, sub
(* what is no business of the alias: indices it does not list, another alias *)
FanAside(s) ==
  LET p == Rnd(1..10) L == IF Loose(s) # {} THEN Rnd(Loose(s)) ELSE "none" F == Names \ DOMAIN s.ix IN
  CASE Loose(s) = {} \/ (p = 1 /\ F # {}) -> Call("put", IF F = {} THEN "b" ELSE Rnd(F), "", RndDoc(s), <<>>)
    [] p <= 3 -> Call("rename", L, IF F = {} \/ p = 3 THEN Rnd(Names \cup {"a", "b"}) ELSE Rnd(F), NoDoc, <<>>)
    [] p <= 5 -> Call("drop", L, "", NoDoc, <<>>)
    [] p = 6 -> Call("alias", "b", L, NoDoc, <<>>)
    [] p = 7 -> Call("unalias", "b", Rnd({"", L}), NoDoc, <<>>)
    [] p = 8 -> Call("unalias", FA, L, NoDoc, <<>>)
    [] p = 9 -> Call("put", L, "", RndDoc(s), <<>>)
    [] OTHER -> (CASE Rnd(1..3) = 1 -> Call("rename", "none", Rnd(Names), NoDoc, <<>>)
                   [] Rnd(1..2) = 1 -> Call("drop", "none", "", NoDoc, <<>>)
                   [] OTHER -> Call("alias", FA, IF IsAlias(s, FA) THEN Rnd(Range(s.al[FA])) ELSE "none", NoDoc, <<>>))
FanCall(s) ==
  CASE sub = 0 /\ phase = "up"   -> Call("put", IF Loose(s) # {} THEN Rnd(Loose(s)) ELSE Rnd(Names \ DOMAIN s.ix), "", RndDoc(s), <<>>)
    [] sub = 1 /\ phase = "up"   -> Call("alias", FA, Rnd(Loose(s)), NoDoc, <<>>)
    [] sub = 0                    -> LET n == Rnd(Range(s.al[FA])) p == Rnd(1..10) IN
                                    (CASE p <= 4 -> Call("drop", n, "", NoDoc, <<>>)
                                       [] p <= 8 -> Call("unalias", FA, n, NoDoc, <<>>)
                                       [] OTHER  -> Call("rename", n, Rnd(Names), NoDoc, <<>>))
    [] sub = 1                    -> Call("has", RndAliased(s), "", NoDoc, <<>>)
    [] sub = 2                    -> Call("put", FA, "", RndDoc(s), <<>>)
    [] sub > 3                    -> FanAside(s)
    [] sub = 3                    -> Call("search", FA, Rnd({"hits", "linear", "all"}), NoDoc, RndSeq(MaxQ, NTok))
InitFan == Init /\ phase = "up" /\ sub = 0
NextFan ==
  /\ ~(phase = "down" /\ FSize(st) = 0)
  /\ \E c \in {FanCall(st)} : \E q1 \in {RndSeq(MaxQ, NTok)}, q2 \in {RndSeq(2, NTok)} :
      LET a == Apply(st, c) IN
      /\ st' = a.st
      /\ step' = step + 1
      /\ held' = held
      /\ PrintT(ToJson([i |-> step, pre |-> st, c |-> c, r |-> a.res, t |-> a.st,
                        dix |-> DesigIx(st, c), dal |-> DesigAl(st, c),
                        q1 |-> q1, q2 |-> q2, show |-> Show(a.st, q1, q2)]))
  /\ sub' = IF sub = 6 \/ (sub = 1 /\ FSize(st') \notin FanAt) THEN 0
            ELSE IF sub = 0 /\ phase = "down" THEN (IF FSize(st') \in FanAt THEN 2 ELSE 0) ELSE sub + 1
  /\ phase' = IF sub' = 0 /\ FSize(st') >= MaxFan THEN "down" ELSE phase
SpecFan == InitFan /\ [][NextFan]_<<vars, phase, sub>>
SpecWalk == Init /\ phase = "up" /\ sub = 0 /\ [][Next /\ UNCHANGED <<phase, sub>>]_<<vars, phase, sub>>

(* Many aliases of one index: when it is listed by sub aliases, something   *)
(* happens to it.                                                           *)
Cnt(s, n) == Cardinality({a \in DOMAIN s.al : Has(s.al[a], n)})
Most(s) == CHOOSE n \in DOMAIN s.ix : \A m \in DOMAIN s.ix : Cnt(s, n) >= Cnt(s, m)
Free(s) == {a \in AliasNames : ~(IsAlias(s, a) /\ Has(s.al[a], Most(s)))}
Ripe(s) == DOMAIN s.ix # {} /\ (Cnt(s, Most(s)) >= sub \/ Free(s) = {})
AlsCall(s) ==
  LET p == Rnd(1..100) IN
  CASE DOMAIN s.ix = {} \/ (Cardinality(DOMAIN s.ix) = 1 /\ p <= 40) -> Call("put", Rnd(Names), "", RndDoc(s), <<>>)
    [] Ripe(s) /\ p <= 45 -> Call("rename", Most(s), Rnd(Names), NoDoc, <<>>)
    [] Ripe(s) /\ p <= 85 -> Call("drop", Most(s), "", NoDoc, <<>>)
    [] Ripe(s) -> Call("unalias", RndAl(s), Rnd({"", Most(s)}), NoDoc, <<>>)
    [] p <= 82 -> Call("alias", Rnd(Free(s)), Most(s), NoDoc, <<>>)
    [] p <= 88 -> Call("alias", Rnd(AliasNames), Rnd(DOMAIN s.ix), NoDoc, <<>>)
    [] p <= 94 -> Call("put", Rnd(Names \cup DOMAIN s.al), "", RndDoc(s), <<>>)
    [] p <= 97 -> Call("listal", "", "", NoDoc, <<>>)
    [] OTHER -> Call("search", RndAny(s), "all", NoDoc, RndSeq(MaxQ, NTok))
InitAls == Init /\ phase = "als" /\ sub = Rnd(FanAt)
Line(c, a, q1, q2, ds) ==
  ToJson([i |-> step, pre |-> st, c |-> c, r |-> a.res, t |-> a.st, dix |-> DesigIx(st, c), dal |-> DesigAl(st, c),
          q1 |-> q1, q2 |-> q2, show |-> Show(a.st, q1, q2), ds |-> ds])
NextAls ==
  /\ \E c \in {AlsCall(st)} : \E q1 \in {RndSeq(MaxQ, NTok)}, q2 \in {RndSeq(2, NTok)} :
      \E a \in {Apply(st, c)} :
        /\ st' = a.st
        /\ PrintT(Line(c, a, q1, q2, <<>>))
  /\ sub' = IF Ripe(st) THEN Rnd(FanAt) ELSE sub
  /\ step' = step + 1 /\ UNCHANGED <<held, phase>>
SpecAls == InitAls /\ [][NextAls]_<<vars, phase, sub>>

(* Large indices: many documents are put in one step ("puts", ds).          *)
PutMany(s, n, ds) ==
  LET T == IF Known(s, n) THEN Range(Targets(s, n)) ELSE {n} IN
  [s EXCEPT !.ix = [x \in DOMAIN s.ix \cup T |-> IF x \notin DOMAIN s.ix THEN ds ELSE IF x \in T THEN s.ix[x] \o ds ELSE s.ix[x]]]
Batch(k, f) == [i \in 1..k |-> [id |-> 1 + ((i * f) % NId), raw |-> 10000 * (step + 1) + i,
                               toks |-> IF i % 5 = 0 THEN <<>> ELSE IF i % 3 = 0 THEN <<1 + (i % NTok), 1 + ((i * f) % NTok)>> ELSE <<1 + (i % NTok)>>]]
NextBulk ==
  \E q1 \in {RndSeq(1, NTok)}, q2 \in {RndSeq(2, NTok)} :
    IF step % 2 = 0 /\ Cardinality(DOMAIN st.ix) < 4
    THEN \E n \in {IF step % 4 = 0 THEN RndAny(st) ELSE IF st.ix = EmptyF THEN "x" ELSE RndIx(st)}, k \in {Rnd(FanAt)}, f \in {Rnd({1, 2, 3, 5})} :
         \E ds \in {Batch(k, f)} : \E s \in {PutMany(st, n, ds)} : \E c \in {Call("puts", n, "", NoDoc, <<k>>)} :
           /\ st' = s /\ step' = step + 1 /\ held' = held
           /\ PrintT(Line([c EXCEPT !.k = "put"], R(s, TRUE), q1, q2, ds))
    ELSE \E c \in {Rest(st)} : \E a \in {IF c.k \in Scrib THEN R(st, TRUE) ELSE Apply(st, c)} :
           /\ st' = a.st /\ step' = step + 1 /\ held' = held
           /\ PrintT(Line(c, a, q1, q2, <<>>))
(* many puts at once are puts one after the other *)
RECURSIVE PutEach(_, _, _)
PutEach(s, n, ds) == IF ds = <<>> THEN s ELSE PutEach(Put(s, n, Head(ds)).st, n, Tail(ds))
InvMany == \A n \in AllNames : PutMany(st, n, Batch(3, 2)) = PutEach(st, n, Batch(3, 2))
SpecBulk == Init /\ phase = "bulk" /\ sub = 0 /\ [][NextBulk /\ UNCHANGED <<phase, sub>>]_<<vars, phase, sub>>

(* Repositories of hundreds of indices, all of one alias: many calls of one *)
(* kind are made in one step (cs), each of which succeeds.                  *)
NameOf(i) == IF i < 10 THEN "n0" \o ToString(i) ELSE "n" \o ToString(i)
InOrder(S) == SelectSeq([i \in 1..MaxFan |-> NameOf(i)], LAMBDA n : n \in S)
(* ns is a sequence of different names, to each of which the call applies *)
MassCall(k, n, i) ==
  CASE k = "put"     -> Call("put", n, "", [id |-> 1 + (i % NId), raw |-> 10000 * (step + 1) + i, toks |-> <<1 + (i % NTok)>>], <<>>)
    [] k = "drop"    -> Call("drop", n, "", NoDoc, <<>>)
    [] OTHER         -> Call(k, FA, n, NoDoc, <<>>)
MassCalls(k, ns) == [i \in 1..Len(ns) |-> MassCall(k, ns[i], i)]
Mass(s, k, ns) ==
  LET N == Range(ns) cs == MassCalls(k, ns) IN
  CASE k = "put"     -> [s EXCEPT !.ix = [n \in DOMAIN s.ix \cup N |-> IF n \notin N THEN s.ix[n]
                                           ELSE LET d == cs[CHOOSE i \in 1..Len(ns) : ns[i] = n].d IN
                                                IF n \in DOMAIN s.ix THEN Append(s.ix[n], d) ELSE <<d>>]]
    [] k = "alias"   -> [s EXCEPT !.al = [a \in DOMAIN s.al \cup {FA} |-> IF a = FA THEN (IF IsAlias(s, FA) THEN s.al[FA] ELSE <<>>) \o ns ELSE s.al[a]]]
    [] OTHER         -> LET left(a) == SelectSeq(s.al[a], LAMBDA n : n \notin N)
                            cut == IF k = "drop" THEN DOMAIN s.al ELSE {FA}
                        IN [ix |-> [n \in (IF k = "drop" THEN DOMAIN s.ix \ N ELSE DOMAIN s.ix) |-> s.ix[n]],
                            al |-> [a \in {a \in DOMAIN s.al : a \notin cut \/ left(a) # <<>>} |-> IF a \in cut THEN left(a) ELSE s.al[a]]]
FromTo(lo, hi) == [i \in 1..(hi - lo + 1) |-> NameOf(lo + i - 1)]
SomeOf(sq, m, r) == LET t == SelectSeq([i \in 1..Len(sq) |-> IF i % m = r THEN sq[i] ELSE ""], LAMBDA n : n # "") IN t
(* what can be done many times over: <<kind, names>> *)
MassMove(s, i) ==
  LET L == InOrder(Loose(s)) A == IF IsAlias(s, FA) THEN s.al[FA] ELSE <<>> m == Rnd({2, 3, 5, 1000}) r == Rnd({0, 1})
      G == InOrder({n \in Names : ~Known(s, n)}) IN
  CASE i % 3 = 0 /\ {f \in FanAt : sub + f <= MaxFan} # {} -> <<"put", FromTo(sub + 1, sub + Rnd({f \in FanAt : sub + f <= MaxFan}))>>
    [] i % 3 = 2 /\ Len(G) > 9 /\ sub > MaxFan \div 2 /\ Rnd(1..3) = 1 -> <<"put", G>>
    [] i % 3 = 1 /\ L # <<>>     -> <<"alias", L>>
    [] i % 3 = 0 /\ A # <<>>     -> <<Rnd({"drop", "unalias"}), SomeOf(A, IF Rnd(1..3) = 1 THEN 1 ELSE m, IF m = 1000 THEN 1 ELSE r)>>
    [] OTHER -> <<"none", <<>>>>
MassDesigIx(s, k, ns) == IF k \in {"put", "drop"} THEN Range(ns) ELSE {}
MassDesigAl(s, k, ns) == IF k = "drop" THEN {a \in DOMAIN s.al : Range(s.al[a]) \cap Range(ns) # {}} ELSE IF k = "put" THEN {} ELSE {FA}
(* what is done to the whole of it, and to what else there is *)
MassRest(s) ==
  LET p == Rnd(1..100) IN
  CASE p <= 25 /\ IsAlias(s, FA) -> Call("put", FA, "", RndDoc(s), <<>>)
    [] p <= 40 /\ IsAlias(s, FA) -> Call("rename", s.al[FA][Rnd({1, 2, Len(s.al[FA]), 1 + (Len(s.al[FA]) \div 2)} \cap 1..Len(s.al[FA]))], "x", NoDoc, <<>>)
    [] p <= 50 /\ IsAlias(s, FA) -> Call("unalias", FA, "", NoDoc, <<>>)
    [] p <= 70 -> Call("alias", "b", Rnd(DOMAIN s.ix), NoDoc, <<>>)
    [] OTHER -> Rest(s)
NextMass ==
  \E q1 \in {RndSeq(1, NTok)}, q2 \in {RndSeq(2, NTok)}, mv \in {MassMove(st, step)} :
    IF Len(mv[2]) > 0
    THEN \E s \in {Mass(st, mv[1], mv[2])} : \E cs \in {MassCalls(mv[1], mv[2])} :
           /\ st' = s /\ sub' = IF mv[1] = "put" THEN sub + Len(mv[2]) ELSE sub
           /\ step' = step + 1 /\ UNCHANGED <<held, phase>>
           /\ PrintT(ToJson([i |-> step, pre |-> st, c |-> Head(cs), r |-> TRUE, t |-> s,
                             dix |-> MassDesigIx(st, mv[1], mv[2]), dal |-> MassDesigAl(st, mv[1], mv[2]),
                             q1 |-> q1, q2 |-> q2, show |-> Show(s, q1, q2), cs |-> cs]))
    ELSE \E c \in {IF DOMAIN st.ix = {} THEN Call("put", "x", "", RndDoc(st), <<>>) ELSE MassRest(st)} :
         \E a \in {IF c.k \in Scrib THEN R(st, TRUE) ELSE Apply(st, c)} :
           /\ st' = a.st /\ step' = step + 1 /\ UNCHANGED <<held, phase, sub>>
           /\ PrintT(Line(c, a, q1, q2, <<>>))
(* many calls at once are calls one after the other *)
RECURSIVE Each(_, _)
Each(s, cs) == IF cs = <<>> THEN s ELSE LET a == Apply(s, Head(cs)) IN IF a.res = TRUE THEN Each(a.st, Tail(cs)) ELSE [ix |-> EmptyF, al |-> EmptyF]
InvMass ==
  LET P == {n \in AllNames : ~Known(st, n)} A == IF IsAlias(st, FA) THEN st.al[FA] ELSE <<>>
      first(sq) == SubSeq(sq, 1, IF Len(sq) < 3 THEN Len(sq) ELSE 3)
      same(k, ns) == Len(ns) > 0 => Mass(st, k, ns) = Each(st, MassCalls(k, ns))
  IN /\ same("put", first(InOrder(P)))
     /\ same("alias", first(InOrder(Loose(st))))
     /\ same("unalias", first(A)) /\ same("drop", first(A))
     /\ same("drop", first(InOrder(Loose(st))))
SpecMass == Init /\ phase = "mass" /\ sub = 0 /\ [][NextMass]_<<vars, phase, sub>>

(* The same with hundreds of aliases of one index.                          *)
NameOfA(i) == IF i < 10 THEN "a0" \o ToString(i) ELSE "a" \o ToString(i)
InOrderA(S) == SelectSeq([i \in 1..MaxFan |-> NameOfA(i)], LAMBDA a : a \in S)
MassACalls(k, as, n) == [i \in 1..Len(as) |-> Call(k, as[i], n, NoDoc, <<>>)]
MassA(s, k, as, n) ==
  LET A == Range(as) left(a) == Minus(s.al[a], n) IN
  CASE k = "alias" -> [s EXCEPT !.al = [a \in DOMAIN s.al \cup A |-> IF a \notin A THEN s.al[a] ELSE IF a \in DOMAIN s.al THEN Append(s.al[a], n) ELSE <<n>>]]
    [] OTHER       -> [s EXCEPT !.al = [a \in {a \in DOMAIN s.al : a \notin A \/ left(a) # <<>>} |-> IF a \in A THEN left(a) ELSE s.al[a]]]
MassAMove(s, i) ==
  LET n == Most(s)
      H == InOrderA({a \in DOMAIN s.al : Has(s.al[a], n)}) F == InOrderA({a \in AliasNames : ~(a \in DOMAIN s.al /\ Has(s.al[a], n))})
      k == Rnd({f \in FanAt : i >= 0}) m == Rnd({2, 3, 5}) IN
  CASE i % 3 = 0 /\ Len(F) > 1 -> <<"alias", SubSeq(F, 1, IF k < Len(F) THEN k ELSE Len(F))>>
    [] i % 5 = 4 /\ Len(H) > 5 -> <<"unalias", SomeOf(H, m, Rnd({0, 1}))>>
    [] OTHER -> <<"none", <<>>>>
MassARest(s) ==
  LET p == Rnd(1..100) IN
  CASE p <= 20 -> Call("rename", Most(s), Rnd(Names), NoDoc, <<>>)
    [] p <= 32 -> Call("drop", Most(s), "", NoDoc, <<>>)
    [] p <= 42 -> Call("put", Rnd(Names), "", RndDoc(s), <<>>)
    [] p <= 52 /\ DOMAIN s.al # {} -> Call("alias", Rnd(DOMAIN s.al), RndIx(s), NoDoc, <<>>)
    [] p <= 60 -> Call("listal", "", "", NoDoc, <<>>)
    [] p <= 70 -> Call("unalias", RndAl(s), "", NoDoc, <<>>)
    [] OTHER -> Rest(s)
NextMassA ==
  \E q1 \in {RndSeq(1, NTok)}, q2 \in {RndSeq(2, NTok)}, mv \in {IF DOMAIN st.ix = {} THEN <<"none", <<>>>> ELSE MassAMove(st, step)} :
    IF Len(mv[2]) > 0
    THEN \E s \in {MassA(st, mv[1], mv[2], Most(st))} : \E cs \in {MassACalls(mv[1], mv[2], Most(st))} :
           /\ st' = s /\ step' = step + 1 /\ UNCHANGED <<held, phase, sub>>
           /\ PrintT(ToJson([i |-> step, pre |-> st, c |-> Head(cs), r |-> TRUE, t |-> s, dix |-> {}, dal |-> Range(mv[2]),
                             q1 |-> q1, q2 |-> q2, show |-> Show(s, q1, q2), cs |-> cs]))
    ELSE \E c \in {IF DOMAIN st.ix = {} \/ step < 3 THEN Call("put", Rnd(Names), "", RndDoc(st), <<>>) ELSE MassARest(st)} :
         \E a \in {IF c.k \in Scrib THEN R(st, TRUE) ELSE Apply(st, c)} :
           /\ st' = a.st /\ step' = step + 1 /\ UNCHANGED <<held, phase, sub>>
           /\ PrintT(Line(c, a, q1, q2, <<>>))
InvMassA == DOMAIN st.ix # {} =>
  LET n == Most(st) first(sq) == SubSeq(sq, 1, IF Len(sq) < 3 THEN Len(sq) ELSE 3)
      same(k, as) == Len(as) > 0 => MassA(st, k, as, n) = Each(st, MassACalls(k, as, n))
  IN /\ same("alias", first(InOrderA({a \in AliasNames : ~(a \in DOMAIN st.al /\ Has(st.al[a], n))})))
     /\ same("unalias", first(InOrderA({a \in DOMAIN st.al : Has(st.al[a], n)})))
SpecMassA == Init /\ phase = "massa" /\ sub = 0 /\ [][NextMassA]_<<vars, phase, sub>>

InvAlias == AliasIntegrity(st)
StepHeld == [][\A i \in 1..Len(held) : held'[i] = held[i]]_vars
=============================================================================
