--------------------------------- MODULE Eng ---------------------------------
(* Searches with an engine the caller supplies (C25).  The engine is called *)
(* once for each designated index: views is what it is shown of each, in    *)
(* the order of attachment, and what it answers, any list of rows at all.   *)
(* The search's results are these lists, one after the other.               *)
EXTENDS RepoSim, Integers
evars == <<vars, phase, sub>>

Kinds == {"all", "linear", "rev", "twice", "any", "none", "foreign", "mixed"}
Pos(docs, P(_)) == SelectSeq([i \in 1..Len(docs) |-> i], P)
Post(docs, t) == Pos(docs, LAMBDA i : Has(docs[i].toks, t))
Part(d, q) == Cardinality({i \in 1..Len(q) : Has(d.toks, q[i])})

(* rows of an answer: document p of the view (0: one of the engine's own), h hits *)
Ans(k, q, docs) ==
  LET n == Len(docs) IN
  CASE k = "all"     -> [i \in 1..n |-> [p |-> i, h |-> 0]]
    [] k = "linear"  -> Map(Pos(docs, LAMBDA i : Matches(docs[i], q)), LAMBDA i : [p |-> i, h |-> Len(q)])
    [] k = "rev"     -> [i \in 1..n |-> [p |-> n + 1 - i, h |-> 0 - i]]
    [] k = "twice"   -> [i \in 1..2 * n |-> [p |-> (i + 1) \div 2, h |-> 1]]
    [] k = "any"     -> Map(Pos(docs, LAMBDA i : Part(docs[i], q) > 0), LAMBDA i : [p |-> i, h |-> Part(docs[i], q)])
    [] k = "none"    -> <<>>
    [] k = "foreign" -> [i \in 1..n + 1 |-> [p |-> 0, h |-> i]]
    [] k = "mixed"   -> [i \in 1..n + 2 |-> [p |-> (i * 3) % (n + 1), h |-> ((i * 7) % 5) - 1]]
RowOf(docs, a) == IF a.p = 0 THEN [id |-> -1, raw |-> -1, hits |-> a.h] ELSE Row(docs[a.p], a.h)

With(s, n, k, q) == [err |-> ~Known(s, n),
                     rows |-> Flat(Map(Targets(s, n), LAMBDA x : Map(Ans(k, q, s.ix[x]), LAMBDA a : RowOf(s.ix[x], a))))]
Views(s, n, k, q) == Map(Targets(s, n), LAMBDA x : [docs |-> Map(s.ix[x], LAMBDA d : [id |-> d.id, raw |-> d.raw]),
                                                   post |-> [t \in 1..NTok |-> Post(s.ix[x], t)],
                                                   ans |-> Ans(k, q, s.ix[x])])

(* with MaxFan > 0, an alias of many indices *)
WideCall(s) ==
  LET p == Rnd(1..100) IN
  CASE DOMAIN s.ix = {} \/ p <= 35 -> Call("put", Rnd(Names), "", RndDoc(s), <<>>)
    [] p <= 80 -> Call("alias", Rnd(AliasNames), Rnd(DOMAIN s.ix), NoDoc, <<>>)
    [] p <= 85 -> Call("put", RndAny(s), "", RndDoc(s), <<>>)
    [] p <= 90 -> Call("unalias", RndAl(s), RndAliased(s), NoDoc, <<>>)
    [] p <= 94 -> Call("drop", RndAliased(s), "", NoDoc, <<>>)
    [] OTHER   -> Call("rename", RndAliased(s), Rnd(Names), NoDoc, <<>>)
(* indices with the very same documents *)
Ones(s) == {s.ix[n][1] : n \in {m \in DOMAIN s.ix : Len(s.ix[m]) = 1}}
EngCall(s) == LET c == IF MaxFan > 0 THEN WideCall(s) ELSE RndCall(s) IN
              IF c.k \in Scrib \cup {"search"} THEN Call("has", c.n, "", NoDoc, <<>>)
              ELSE IF c.k = "put" /\ ~Known(s, c.n) /\ Ones(s) # {} /\ Rnd(1..2) = 1 THEN [c EXCEPT !.d = Rnd(Ones(s))]
              ELSE c
InitEng == Init /\ phase = "eng" /\ sub = 0
NextEng ==
  \E c \in {EngCall(st)} : \E a \in {Apply(st, c)} :
    /\ st' = a.st
    /\ step' = step + 1
    /\ UNCHANGED <<held, phase, sub>>
    /\ \E n \in {RndAny(st')}, q \in {RndSeq(MaxQ, NTok)}, k \in {Rnd({x \in Kinds : step >= 0})} :
       PrintT(ToJson([i |-> step, c |-> c, r |-> a.res, n |-> n, q |-> q, e |-> k, ntok |-> NTok,
                      plain |-> Search(st', n, "all", <<>>), views |-> Views(st', n, k, q), res |-> With(st', n, k, q)]))
SpecEng == InitEng /\ [][NextEng]_evars

(* the engines that come with the system are engines like any other *)
InvBuiltin == \A n \in AllNames, k \in {"all", "linear"} : With(st, n, k, <<1, 2>>) = Search(st, n, k, <<1, 2>>)
InvPost == \A n \in DOMAIN st.ix : \A t \in 1..NTok :
             LET p == Post(st.ix[n], t) IN
             /\ \A i \in 1..Len(p) - 1 : p[i] < p[i + 1]
             /\ Range(p) = {i \in 1..Len(st.ix[n]) : Has(st.ix[n][i].toks, t)}
=============================================================================
