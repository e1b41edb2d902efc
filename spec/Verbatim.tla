------------------------------ MODULE Verbatim ------------------------------
(* What a put submits and what comes back (C16).  A request has words in    *)
(* its identifier, its content and, if constructed with one, in a separate  *)
(* search text; and a media type.  Matching is decided by the search text   *)
(* alone; identifier and content come back as submitted.                    *)
EXTENDS Repo, Json
CONSTANTS Toks, MaxId, MaxC, MaxS, MaxQ, MaxReqs, EmitOn
VARIABLES reqs
vars == <<reqs>>

Seqs(n, S) == UNION {[1..k -> S] : k \in 0..n}
Req == [ctor : {"plain", "mime1", "mime2"}, id : Seqs(MaxId, Toks), c : Seqs(MaxC, Toks), s : {<<>>}]
       \cup [ctor : {"with"}, id : Seqs(MaxId, Toks), c : Seqs(MaxC, Toks), s : Seqs(MaxS, Toks)]
SearchText(r) == IF r.ctor = "with" THEN r.s ELSE r.c
Docs == [i \in 1..Len(reqs) |-> [id |-> reqs[i].id, raw |-> i, toks |-> SearchText(reqs[i])]]
Match(q) == {i \in 1..Len(reqs) : Matches(Docs[i], q)}
Queries == Seqs(MaxQ, Toks)

Init == reqs = <<>>
Next == Len(reqs) < MaxReqs /\ \E r \in Req : reqs' = Append(reqs, r)
Spec == Init /\ [][Next]_vars

Rnd(S) == RandomElement(S)
RndSeq(n, x) == [i \in 1..Rnd(0..n) |-> Rnd(Toks)]
RndReq(x) == LET k == Rnd({"plain", "mime1", "mime2", "with", "with"})
                 c == RndSeq(MaxC, x) IN
             [ctor |-> k, id |-> RndSeq(MaxId, x), c |-> c,
              s |-> IF k = "with" THEN IF Rnd(1..4) = 1 THEN c ELSE RndSeq(MaxS, x) ELSE <<>>]
NextSim == Len(reqs) < MaxReqs /\ \E r \in {RndReq(reqs)} : reqs' = Append(reqs, r)
SpecSim == Init /\ [][NextSim]_vars

(* non-interference: changing anything but the search text changes no match *)
InvSame == \A i, j \in 1..Len(reqs) : SearchText(reqs[i]) = SearchText(reqs[j]) =>
             \A q \in Queries : (i \in Match(q)) = (j \in Match(q))
(* a query word found only in identifiers or hidden contents matches nothing *)
InvHidden == \A t \in Toks : (\A i \in 1..Len(reqs) : ~Has(SearchText(reqs[i]), t)) => Match(<<t>>) = {}

SetSeq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m}) IN F(S)
Emit == EmitOn /\ Len(reqs) = MaxReqs =>
  PrintT(ToJson([reqs |-> reqs, qs |-> {[q |-> q, m |-> SetSeq(Match(q))] : q \in Queries}]))
=============================================================================
