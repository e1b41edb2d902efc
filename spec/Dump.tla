-------------------------------- MODULE Dump --------------------------------
(* The written form of an index (C26): its documents, and for each token    *)
(* the positions of those that contain it.  Text, saved, is made from an    *)
(* index and read back into a fresh one; the words of the documents are not *)
(* in it, yet the index read must answer and grow like the one written.     *)
(* words is a ghost: the search texts of the documents of each index.       *)
EXTENDS Repo, Json
CONSTANTS NIx, NTok, NId, MaxTok, MaxQ, MaxDocs
VARIABLES ix, words, saved, gsaved, step
vars == <<ix, words, saved, gsaved, step>>
Slots == 1..NIx
Toks == 1..NTok

Empty == [docs |-> <<>>, post |-> [t \in Toks |-> <<>>]]
Store(x, d) == [docs |-> Append(x.docs, [id |-> d.id, raw |-> d.raw]),
                post |-> [t \in Toks |-> IF Has(d.toks, t) THEN Append(x.post[t], Len(x.docs) + 1) ELSE x.post[t]]]

(* the written form: tokens without documents are not in it *)
Write(x) == [indexed |-> x.docs, inverted |-> {[t |-> t, p |-> x.post[t]] : t \in {u \in Toks : x.post[u] # <<>>}}]
Read(f)  == [docs |-> f.indexed, post |-> [t \in Toks |-> IF \E e \in f.inverted : e.t = t
                                                         THEN (CHOOSE e \in f.inverted : e.t = t).p ELSE <<>>]]

(* what an engine can find out from an index *)
Found(x, q) == IF q = <<>> THEN <<>>
               ELSE Map(SelectSeq([i \in 1..Len(x.docs) |-> i], LAMBDA i : \A j \in 1..Len(q) : Has(x.post[q[j]], i)),
                        LAMBDA i : [id |-> x.docs[i].id, raw |-> x.docs[i].raw, hits |-> Len(q)])
Ghost(s) == [i \in 1..Len(ix[s].docs) |-> [id |-> ix[s].docs[i].id, raw |-> ix[s].docs[i].raw, toks |-> words[s][i]]]

PutS(s, d) == /\ ix' = [ix EXCEPT ![s] = Store(@, d)]
              /\ words' = [words EXCEPT ![s] = Append(@, d.toks)]
              /\ UNCHANGED <<saved, gsaved>>
Save(s) == saved' = Write(ix[s]) /\ gsaved' = words[s] /\ UNCHANGED <<ix, words>>
Load(s) == /\ ix' = [ix EXCEPT ![s] = Read(saved)] /\ words' = [words EXCEPT ![s] = gsaved]
           /\ UNCHANGED <<saved, gsaved>>

Init == /\ ix = [s \in Slots |-> Empty] /\ words = [s \in Slots |-> <<>>]
        /\ saved = Write(Empty) /\ gsaved = <<>> /\ step = 0
Seqs(n, S) == UNION {[1..k -> S] : k \in 0..n}
Next == /\ step' = step + 1
        /\ \E s \in Slots : \/ Save(s)
                            \/ Load(s)
                            \/ Len(ix[s].docs) < MaxDocs /\ \E i \in 1..NId, tk \in Seqs(MaxTok, Toks) :
                                 PutS(s, [id |-> i, raw |-> 1, toks |-> tk])
Spec == Init /\ [][Next]_vars
View == <<ix, words, saved, gsaved>>

Rnd(S) == RandomElement(S)
RndSeq(n) == [i \in 1..Rnd(0..n) |-> Rnd(Toks)]
NextSim ==
  \E k \in {IF Rnd(1..10) <= 7 THEN "put" ELSE Rnd({"save", "load"})}, s \in {Rnd({x \in Slots : step >= 0})} :
    \E d \in {[id |-> Rnd(1..NId), raw |-> step + 1, toks |-> RndSeq(MaxTok)]}, q \in {RndSeq(MaxQ)} :
      /\ step' = step + 1
      /\ (CASE k = "put" -> PutS(s, d) [] k = "save" -> Save(s) [] k = "load" -> Load(s))
      /\ PrintT(ToJson([i |-> step, k |-> k, s |-> s, d |-> d, q |-> q, ntok |-> NTok,
                        show |-> [x \in Slots |-> [form |-> Write(ix'[x]), found |-> Found(ix'[x], q), hits |-> HitsRows(Ghost(x)', q)]]]))
SpecSim == Init /\ [][NextSim]_vars

InvPost  == \A s \in Slots : \A t \in Toks : LET p == ix[s].post[t] IN
              /\ \A i \in 1..Len(p) - 1 : p[i] < p[i + 1]
              /\ Range(p) = {i \in 1..Len(words[s]) : Has(words[s][i], t)}
InvRound == \A s \in Slots : Read(Write(ix[s])) = ix[s]
InvFound == \A s \in Slots : \A q \in Seqs(2, Toks) : Found(ix[s], q) = LinearRows(Ghost(s), q)
=============================================================================
