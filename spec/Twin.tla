-------------------------------- MODULE Twin --------------------------------
(* Several repositories side by side (C24): a call on one is a step of that *)
(* one alone, whatever they share (a builder, a pipeline, names, documents, *)
(* texts).  "direct" is an index made by the builder outside of any         *)
(* repository: it holds what is put into it, and nothing else does.         *)
EXTENDS RepoSim
CONSTANT NRepo
VARIABLE sts
tvars == <<vars, phase, sub, sts>>
Repos == 1..NRepo

TwinCall(r) ==
  LET s == sts[r] IN
  IF Rnd(1..12) = 1 THEN Call("direct", RndAny(s), "", RndDoc(s), <<>>)
  ELSE IF Rnd(1..100) <= Skew THEN Call("put", RndAny(s), "", [RndDoc(s) EXCEPT !.raw = 100000 * r + step + 1], <<>>)
  ELSE LET c == Rest(s) IN IF c.k \in Scrib THEN Call("string", "", "", NoDoc, <<>>) ELSE c

TwinApply(s, c) == IF c.k = "direct" THEN R(s, AllRows(<<c.d>>)) ELSE Apply(s, c)

InitTwin == Init /\ phase = "twin" /\ sub = 0 /\ sts = [r \in Repos |-> EmptyRepo]
NextTwin ==
  \E r \in {Rnd({x \in Repos : step >= 0})} : \E c \in {TwinCall(r)} :
    \E q1 \in {RndSeq(MaxQ, NTok)}, q2 \in {RndSeq(2, NTok)} : \E a \in {TwinApply(sts[r], c)} :
      /\ sts' = [sts EXCEPT ![r] = a.st]
      /\ step' = step + 1
      /\ UNCHANGED <<st, held, phase, sub>>
      /\ PrintT(ToJson([i |-> step, r |-> r, c |-> c, res |-> a.res, q1 |-> q1, q2 |-> q2,
                        al |-> [x \in Repos |-> sts'[x].al], show |-> [x \in Repos |-> Show(sts'[x], q1, q2)]]))
SpecTwin == InitTwin /\ [][NextTwin]_tvars

InvTwin == \A r \in Repos : AliasIntegrity(sts[r])
(* contents put through one repository appear in no other *)
InvApart == \A r \in Repos : \A n \in DOMAIN sts[r].ix : \A i \in 1..Len(sts[r].ix[n]) : sts[r].ix[n][i].raw \div 100000 = r
StepTwin == [][\E r \in Repos : \A x \in Repos \ {r} : sts'[x] = sts[x]]_tvars
=============================================================================
