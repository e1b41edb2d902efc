-------------------------------- MODULE Fault --------------------------------
(* Code of the caller's that panics inside a call, the panic recovered by   *)
(* the caller (C18, C27), and calls made many times over (C03 and others).  *)
(*                                                                         *)
(* A fault is a step that leaves everything as it is:                       *)
(*   panicsearch  the engine of a search that reaches one index             *)
(*   panicquery   the pipeline, analysing the query of such a search        *)
(*   panicbuild   the builder, asked for the index of a new name            *)
(*   panicdoc     the pipeline or the request, when a new index is to get   *)
(*                its first document.  Whether that leaves an empty index   *)
(*                is open; the step includes dropping it.                   *)
(* It happens times over.                                                   *)
EXTENDS RepoSim
CONSTANT Faults
fvars == <<vars, phase, sub>>

One(s) == {n \in AllNames : Len(Targets(s, n)) = 1}
New(s) == {n \in AllNames : ~Known(s, n)}
At(s, k) == IF k \in {"panicsearch", "panicquery"} THEN One(s) ELSE New(s)
Possible(s) == {k \in Faults : At(s, k) # {}}
FaultCall(s, k) == Call(k, Rnd(At(s, k)), "", RndDoc(s), RndSeq(MaxQ, NTok))
ApplyF(s, c) == IF c.k \in Scrib \cup Faults THEN R(s, TRUE) ELSE Apply(s, c)

(* sub counts down to the next fault *)
Often(n) == CASE n <= 60 -> 1 [] n <= 75 -> 2 [] n <= 85 -> 9 [] n <= 95 -> 40 [] OTHER -> 300
Many(n) == CASE n <= 40 -> 2 [] n <= 70 -> 20 [] n <= 90 -> 130 [] OTHER -> 1100

Step(c, times, q1, q2) ==
  LET a == ApplyF(st, c) b == ApplyF(a.st, c) IN
  /\ st' = a.st
  /\ step' = step + 1
  /\ held' = held
  /\ PrintT(ToJson([i |-> step, pre |-> st, c |-> c, r |-> a.res, t |-> a.st, times |-> times, r2 |-> b.res,
                    dix |-> DesigIx(st, c), dal |-> DesigAl(st, c),
                    q1 |-> q1, q2 |-> q2, show |-> Show(a.st, q1, q2)]))

InitFault == Init /\ phase = "fault" /\ sub = 0
NextFault ==
  \E q1 \in {RndSeq(MaxQ, NTok)}, q2 \in {RndSeq(2, NTok)} :
    /\ IF sub = 0 /\ Possible(st) # {}
       THEN \E k \in {Rnd(Possible(st))}, t \in {Often(Rnd({x \in 1..100 : step >= 0}))} : \E c \in {FaultCall(st, k)} : Step(c, t, q1, q2)
       ELSE \E c \in {RndCall(st)} : Step(c, 1, q1, q2)
    /\ sub' = IF sub = 0 THEN Rnd({x \in 0..2 : step >= 0}) ELSE sub - 1
    /\ phase' = phase
SpecFault == InitFault /\ [][NextFault]_fvars

(* the same call many times over: all but a put change nothing after the    *)
(* first time                                                               *)
NextRep ==
  \E q1 \in {RndSeq(MaxQ, NTok)}, q2 \in {RndSeq(2, NTok)}, c \in {RndCall(st)} :
    /\ IF c.k = "put" THEN Step(c, 1, q1, q2)
       ELSE \E t \in {Many(Rnd({x \in 1..100 : step >= 0}))} : Step(c, t, q1, q2)
    /\ UNCHANGED <<phase, sub>>
SpecRep == InitFault /\ [][NextRep]_fvars

Plain(s) == {Call(k, n, m, NoDoc, <<1>>) : k \in {"alias", "unalias", "rename", "drop", "search"}, n \in AllNames, m \in DOMAIN s.ix}
InvAgain == \A c \in Plain(st) : c.k # "search" => LET s == Apply(st, c).st IN Apply(s, c).st = s
InvOne == \A n \in One(st) : Cardinality(Range(Targets(st, n))) = 1
=============================================================================
