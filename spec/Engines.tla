------------------------------ MODULE Engines -------------------------------
(* One index and the search engines, as they work: positions, a posting    *)
(* list per token built put by put, hit counting with a threshold and a    *)
(* stable sort, and successive two-pointer intersections.  TLC checks them *)
(* against the declarative definitions of Repo (C10, C11, C12).            *)
(*                                                                         *)
(* NextAll enumerates every index up to the bounds; NextSim grows one at   *)
(* random (tlc -simulate).  Each state is emitted with everything that is  *)
(* observable in it; the driver performs the puts on a real MemoryIndex.   *)
EXTENDS Repo, Json
CONSTANTS NId, NTok, MaxTok, MaxDocs, MaxQ,
          NQ,      \* simulation: queries per emitted state
          Every,   \* simulation: emit every that many puts
          EmitOn
VARIABLES docs, post
vars == <<docs, post>>

Toks == 1..NTok
Seqs(n, S) == UNION {[1..k -> S] : k \in 0..n}

-----------------------------------------------------------------------------
(* Put: append the document; then for each token in turn, append the new    *)
(* position to its posting list unless it is there already                  *)
RECURSIVE Index(_, _, _)
Index(p, toks, pos) ==
  IF toks = <<>> THEN p
  ELSE LET t == Head(toks)
           l == IF Has(p[t], pos) THEN p[t] ELSE Append(p[t], pos)
       IN Index([p EXCEPT ![t] = l], Tail(toks), pos)

DoPut(d) == /\ docs' = Append(docs, d)
            /\ post' = Index(post, d.toks, Len(docs) + 1)

-----------------------------------------------------------------------------
(* The hits engine *)
RECURSIVE CountHits(_, _)
CountHits(h, q) ==
  IF q = <<>> THEN h
  ELSE LET l == IF Head(q) \in Toks THEN post[Head(q)] ELSE <<>> IN
       CountHits([i \in DOMAIN h |-> IF Has(l, i) THEN h[i] + 1 ELSE h[i]], Tail(q))

(* insertion sort that moves an element left past strictly greater ones:    *)
(* stable                                                                   *)
RowLess(a, b) == a.hits > b.hits \/ (a.hits = b.hits /\ a.id < b.id)
RECURSIVE Ins(_, _)
Ins(s, e) == IF s = <<>> THEN <<e>>
             ELSE IF RowLess(e, s[Len(s)])
                  THEN Append(Ins(SubSeq(s, 1, Len(s) - 1), e), s[Len(s)])
                  ELSE Append(s, e)
RECURSIVE Sort(_, _)
Sort(acc, s) == IF s = <<>> THEN acc ELSE Sort(Ins(acc, Head(s)), Tail(s))

HitsAlg(q) ==
  LET h == CountHits([i \in 1..Len(docs) |-> 0], q)
      RECURSIVE Keep(_)
      Keep(i) == IF i > Len(docs) THEN <<>>
                 ELSE IF h[i] > 0 /\ h[i] >= Len(q)
                      THEN <<Row(docs[i], h[i])>> \o Keep(i + 1) ELSE Keep(i + 1)
  IN Sort(<<>>, Keep(1))

(* The linear engine *)
RECURSIVE Inter(_, _)
Inter(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
               ELSE IF Head(a) < Head(b) THEN Inter(Tail(a), b)
               ELSE IF Head(a) > Head(b) THEN Inter(a, Tail(b))
               ELSE <<Head(a)>> \o Inter(Tail(a), Tail(b))
PostOf(t) == IF t \in Toks THEN post[t] ELSE <<>>
RECURSIVE Fold(_, _)
Fold(l, q) == IF q = <<>> THEN l ELSE Fold(Inter(l, PostOf(Head(q))), Tail(q))
LinearAlg(q) ==
  IF q = <<>> THEN <<>>
  ELSE LET l == Fold(PostOf(Head(q)), Tail(q)) IN
       [i \in 1..Len(l) |-> Row(docs[l[i]], Len(q))]

-----------------------------------------------------------------------------
Queries == Seqs(MaxQ, 1..(NTok + 1))   \* token NTok + 1 occurs nowhere

Positions(t) == {i \in 1..Len(docs) : Has(docs[i].toks, t)}
PostOK == \A t \in Toks :
            /\ Range(post[t]) = Positions(t)
            /\ \A i \in 1..Len(post[t]) : i < Len(post[t]) => post[t][i] < post[t][i + 1]
EnginesOK(Q) == \A q \in Q : /\ HitsAlg(q) = HitsRows(docs, q)
                             /\ LinearAlg(q) = LinearRows(docs, q)
SortedOK(Q) == \A q \in Q : LET r == HitsRows(docs, q) IN
                 \A i \in 1..Len(r) : /\ r[i].hits = Len(q)
                                      /\ i < Len(r) => r[i].id <= r[i + 1].id
(* C12: positions and posting lists only grow *)
Grows == [][/\ PrefixOf(docs, docs') /\ Len(docs') = Len(docs) + 1
            /\ \A t \in Toks : PrefixOf(post[t], post'[t])]_vars

Line(Q) ==
  ToJson([docs |-> docs, post |-> post,
          qs |-> {LET hr == HitsRows(docs, q)
                     lr == LinearRows(docs, q)
                 IN [q |-> q, h |-> Map(hr, LAMBDA r : <<r.id, r.raw>>), l |-> Map(lr, LAMBDA r : <<r.id, r.raw>>)] : q \in Q}])

Init == docs = <<>> /\ post = [t \in Toks |-> <<>>]

(* a new content, or that of an earlier document once more *)
Contents == {Len(docs) + 1} \cup {docs[i].raw : i \in 1..Len(docs)}
DocSet == [id : 1..NId, raw : Contents, toks : Seqs(MaxTok, Toks)]
NextAll == Len(docs) < MaxDocs /\ \E d \in DocSet : DoPut(d)
SpecAll == Init /\ [][NextAll]_vars
InvPost == PostOK
InvEngines == EnginesOK(Queries) /\ SortedOK(Queries)
Emit == EmitOn => PrintT(Line(Queries))

-----------------------------------------------------------------------------
Rnd(S) == RandomElement(S)
RndSeq(lo, n, k) == [i \in 1..Rnd(lo..n) |-> Rnd(1..k)]
(* token k is rarer the greater k, or all are alike, or few are used *)
RndTok(k, sk) == IF sk = 1 THEN Rnd(1..Rnd(1..Rnd(1..k))) ELSE Rnd(1..k)
RndSkew(lo, n, k, sk) == [i \in 1..Rnd(lo..n) |-> RndTok(k, sk)]
RndToks(x) == CASE Rnd(1..4) = 1 -> RndSeq(0, MaxTok, 2)
                [] Rnd(1..2) = 1 -> RndSkew(0, MaxTok, NTok, 1)
                [] OTHER -> RndSeq(0, MaxTok, NTok)
(* queries: random, or words of one document, shuffled and repeated *)
RndQ == IF docs # <<>> /\ Rnd(1..3) > 1
        THEN LET t == docs[Rnd(1..Len(docs))].toks IN
             IF t = <<>> THEN RndSeq(0, MaxQ, NTok)
             ELSE [i \in 1..Rnd(1..MaxQ) |-> t[Rnd(1..Len(t))]]
        ELSE RndSeq(0, MaxQ, IF Rnd(1..4) = 1 THEN NTok + 1 ELSE NTok)
(* a document like none before, one of the earlier once more, possibly the  *)
(* last, or an earlier content with another identifier or search text       *)
RndNew(x) == [id |-> Rnd(1..NId), raw |-> Len(docs) + 1, toks |-> RndToks(docs)]
RndOld(x) == docs[IF Rnd(1..2) = 1 THEN Len(docs) ELSE Rnd(1..Len(docs))]
RndDoc(x) == CASE docs = <<>> -> RndNew(x)
               [] Rnd(1..12) = 1 -> RndOld(x)
               [] Rnd(1..12) = 1 -> [RndOld(x) EXCEPT !.toks = RndToks(docs)]
               [] Rnd(1..12) = 1 -> [RndOld(x) EXCEPT !.id = Rnd(1..NId)]
               [] OTHER -> RndNew(x)
NextSim ==
  /\ Len(docs) < MaxDocs
  /\ \E d \in {RndDoc(docs)} : DoPut(d)
EmitSim == Len(docs) % Every = 0 \/ Len(docs) = MaxDocs =>
  \E Q \in {{RndQ : i \in 1..NQ}} :
     /\ EnginesOK(Q)
     /\ PrintT(Line(Q))
(* large indices: only the declarative answers *)
EmitLarge == Len(docs) % Every = 0 \/ Len(docs) = MaxDocs => \E Q \in {{RndQ : i \in 1..NQ}} : PrintT(Line(Q))
SpecSim == Init /\ [][NextSim]_vars
=============================================================================
