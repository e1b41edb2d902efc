------------------------------ MODULE Regions -------------------------------
(* The regions R1, R2 and RV of the Spanish Snowball stemmer (C17), for     *)
(* words abstracted to vowel / non-vowel letters.  A region is given by the *)
(* position of its first letter, Len + 1 when it is empty.                  *)
(*                                                                          *)
(* Declaratively by positions, and by a machine that reads the word letter  *)
(* by letter; TLC checks that they agree on every word up to the bound.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, EmitOn
VARIABLES w, i, m1, m2, mv
vars == <<w, i, m1, m2, mv>>

\* Unicode code points: a e i o u, the same with acute accent, u with diaeresis
Vowels == {97, 101, 105, 111, 117, 225, 233, 237, 243, 250, 252}
\* b .. z, n with tilde, c with cedilla
Others == {98, 99, 100, 102, 103, 104, 106, 107, 108, 109, 110, 241, 112, 113, 114, 115, 116, 118, 119, 120, 121, 122, 231}

V == "v"
C == "c"
N == Len(w)
IsV(k) == w[k] = V

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
First(S) == IF S = {} THEN N + 1 ELSE Min(S)

(* after the first non-vowel that follows a vowel, at or after position s   *)
After(s) == LET P == {k \in (s + 1)..N : ~IsV(k) /\ IsV(k - 1)} IN
            IF P = {} THEN N + 1 ELSE Min(P) + 1
R1 == After(1)
R2 == After(R1)
RV == IF N < 2 THEN N + 1
      ELSE IF ~IsV(2) THEN LET P == {k \in 3..N : IsV(k)} IN IF P = {} THEN N + 1 ELSE Min(P) + 1
      ELSE IF IsV(1) THEN LET P == {k \in 3..N : ~IsV(k)} IN IF P = {} THEN N + 1 ELSE Min(P) + 1
      ELSE IF N > 3 THEN 4 ELSE N + 1

(* "follows a vowel" may be read as directly after or anywhere after: the   *)
(* first non-vowel anywhere after a vowel is the first directly after one   *)
AfterAny(s) == LET P == {k \in s..N : ~IsV(k) /\ \E j \in s..(k - 1) : IsV(j)} IN
               IF P = {} THEN N + 1 ELSE Min(P) + 1

(* the reading machine: for R1 and R2 "seek a vowel", "seek a non-vowel",   *)
(* "start"; for RV the case decided by the first two letters                *)
Init == /\ w \in UNION {[1..n -> {V, C}] : n \in 0..MaxLen}
        /\ i = 1
        /\ m1 = [ph |-> "vowel", at |-> 0] /\ m2 = [ph |-> "idle", at |-> 0] /\ mv = [ph |-> "first", at |-> 0]
Adv(m, k) == CASE m.ph = "vowel"  -> IF IsV(k) THEN [m EXCEPT !.ph = "other"] ELSE m
               [] m.ph = "other"  -> IF ~IsV(k) THEN [m EXCEPT !.ph = "start"] ELSE m
               [] m.ph = "start"  -> [ph |-> "done", at |-> k]
               [] m.ph \in {"done", "idle"} -> m
AdvV(m, k) == CASE m.ph = "first"  -> [m EXCEPT !.ph = IF IsV(k) THEN "v" ELSE "c"]
                [] m.ph = "v"      -> [m EXCEPT !.ph = IF IsV(k) THEN "seekc" ELSE "seekv"]
                [] m.ph = "c"      -> [m EXCEPT !.ph = IF IsV(k) THEN "third" ELSE "seekv"]
                [] m.ph = "seekc"  -> IF ~IsV(k) THEN [m EXCEPT !.ph = "start"] ELSE m
                [] m.ph = "seekv"  -> IF IsV(k) THEN [m EXCEPT !.ph = "start"] ELSE m
                [] m.ph = "third"  -> [m EXCEPT !.ph = "start"]
                [] m.ph = "start"  -> [ph |-> "done", at |-> k]
                [] m.ph = "done"   -> m
Read == /\ i <= N /\ i' = i + 1 /\ w' = w
        /\ LET a == Adv(m1, i) IN
           /\ m1' = a
           /\ m2' = IF m2.ph = "idle" THEN IF a.ph = "done" THEN Adv([ph |-> "vowel", at |-> 0], i) ELSE m2
                    ELSE Adv(m2, i)
        /\ mv' = AdvV(mv, i)
Spec == Init /\ [][Read]_vars

At(m) == IF m.ph = "done" THEN m.at ELSE N + 1
InvMachine == i = N + 1 => At(m1) = R1 /\ At(m2) = R2 /\ At(mv) = RV
InvReading == i = 1 => \A s \in 1..(N + 1) : After(s) = AfterAny(s)
InvSuffix == i = 1 => R1 <= N + 1 /\ R2 <= N + 1 /\ RV <= N + 1 /\ R1 <= R2
Emit == EmitOn /\ i = N + 1 => PrintT(ToJson([w |-> w, r1 |-> R1, r2 |-> R2, rv |-> RV]))
EmitLetters == EmitOn /\ N = 0 => PrintT(ToJson([vowels |-> Vowels, others |-> Others]))

Rnd(S) == RandomElement(S)
InitSim == /\ w = <<>> /\ i = 0 /\ m1 = [ph |-> "vowel", at |-> 0] /\ m2 = [ph |-> "idle", at |-> 0] /\ mv = [ph |-> "first", at |-> 0]
Pick == /\ i = 0 /\ i' = 1 /\ UNCHANGED <<m1, m2, mv>>
        \* the first p letters may be all vowels or all others, but for the first
        /\ \E n \in {Rnd(1..MaxLen)}, b \in {Rnd(1..5)} : \E p \in {IF Rnd(1..2) = 1 THEN 0 ELSE Rnd(1..n)}, f \in {Rnd({V, C})}, g \in {Rnd({V, C})} :
             w' = [k \in 1..n |-> IF k = 1 /\ p > 0 THEN g ELSE IF k <= p THEN f ELSE IF Rnd(1..6) <= b THEN V ELSE C]
SpecSim == InitSim /\ [][Pick \/ (i > 0 /\ Read)]_vars
EmitSim == i > 0 => Emit
InvSim == i > 0 => InvMachine /\ InvReading /\ InvSuffix
=============================================================================
