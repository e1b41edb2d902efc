------------------------------- MODULE Analyze ------------------------------
(* Text analysis (C14).  A text is a sequence of characters; a character is *)
(* a number 10 * class + k:                                                 *)
(*   1 lower-case letter   2 the upper-case form of 10 + k   3 number       *)
(*   4 letter without case 5 separator                                      *)
(*   6, 7 further separators that custom tokenizers may keep                *)
(* A tokenizer is a sequence of predicates, a predicate a set of classes.   *)
(* A token is a term: characters, and functions still to be applied to them *)
(* that the specification does not interpret (the stemmer).  A filter maps  *)
(* token sequences to token sequences.                                      *)
(*                                                                          *)
(* The machine tokenizes character by character, then applies one filter a  *)
(* step.  Scanning is checked against the declarative meaning: the maximal  *)
(* runs of kept characters.                                                 *)
EXTENDS Repo, Json
CONSTANTS Chars, MaxLen, MaxFilters, EmitOn
VARIABLES text, preds, fs, pos, cur, toks, log, phase
vars == <<text, preds, fs, pos, cur, toks, log, phase>>

Class(c) == c \div 10
Kept(c) == \E i \in 1..Len(preds) : Class(c) \in preds[i]
Term(c) == [c |-> c, o |-> <<>>]

(* declarative tokenization *)
Run(i, j) == /\ \A x \in i..j : Kept(text[x])
             /\ (i > 1 => ~Kept(text[i - 1]))
             /\ (j < Len(text) => ~Kept(text[j + 1]))
Starts == {i \in 1..Len(text) : Kept(text[i]) /\ (i > 1 => ~Kept(text[i - 1]))}
RECURSIVE RunsFrom(_)
RunsFrom(S) == IF S = {} THEN <<>>
               ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
                        j == CHOOSE x \in i..Len(text) : Run(i, x)
                    IN <<Term(SubSeq(text, i, j))>> \o RunsFrom(S \ {i})
Tokens == RunsFrom(Starts)

(* filters *)
LowerC(c) == IF Class(c) = 2 THEN c - 10 ELSE c
LowerT(t) == IF t.o = <<>> THEN Term(Map(t.c, LowerC)) ELSE [t EXCEPT !.o = Append(t.o, "lower")]
Opaque(t, f) == [t EXCEPT !.o = Append(t.o, f)]
RECURSIVE Twice(_)
Twice(s) == IF s = <<>> THEN <<>> ELSE <<Head(s), Head(s)>> \o Twice(Tail(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

ApplyF(f, s) ==
  CASE f.f = "lower" -> Map(s, LowerT)
    [] f.f = "stop"  -> SelectSeq(s, LAMBDA t : t \notin f.set)
    [] f.f \in {"stem0", "stem1", "mark1", "mark2"} -> Map(s, LAMBDA t : Opaque(t, f.f))
    [] f.f = "dup"   -> Twice(s)
    [] f.f = "rev"   -> Rev(s)
    [] f.f = "first" -> IF s = <<>> THEN s ELSE <<Head(s)>>
    [] f.f = "id"    -> s

F(n) == [f |-> n, set |-> {}]
RECURSIVE Fold(_, _)
Fold(g, s) == IF g = <<>> THEN s ELSE Fold(Tail(g), ApplyF(Head(g), s))

-----------------------------------------------------------------------------
Scan ==
  /\ phase = "scan" /\ pos <= Len(text)
  /\ IF Kept(text[pos])
     THEN cur' = Append(cur, text[pos]) /\ toks' = toks
     ELSE cur' = <<>> /\ toks' = IF cur = <<>> THEN toks ELSE Append(toks, Term(cur))
  /\ pos' = pos + 1
  /\ UNCHANGED <<text, preds, fs, log, phase>>
ScanEnd ==
  /\ phase = "scan" /\ pos > Len(text)
  /\ toks' = IF cur = <<>> THEN toks ELSE Append(toks, Term(cur))
  /\ log' = <<toks'>> /\ phase' = "filter" /\ cur' = <<>>
  /\ UNCHANGED <<text, preds, fs, pos>>

Opq(s) == \E i \in 1..Len(s) : s[i].o # <<>>
Rnd(S) == RandomElement(S)
(* stop lists: some of the tokens at hand, their lower-case forms, others;  *)
(* behind an uninterpreted function all of them or none                     *)
StopSet(s) ==
  IF s = <<>> THEN {Term(<<11>>)}
  ELSE IF Opq(s) THEN IF Rnd(1..3) = 1 THEN Range(s) ELSE {}
  ELSE LET A == Range(s) \cup {LowerT(t) : t \in Range(s)} IN
       {t \in A : Rnd(1..3) = 1} \cup {Term(<<11>>), Term(SubSeq(s[1].c, 1, 1)), Term(s[1].c \o <<12>>)}
Names == {"lower", "stop", "stem0", "stem1", "mark1", "mark2", "dup", "rev", "first", "id"}
Filter ==
  /\ phase = "filter" /\ Len(fs) < MaxFilters
  /\ \E n \in {LET p == Rnd(1..14) IN IF p <= 3 THEN "lower" ELSE IF p <= 6 THEN "stop" ELSE IF p = 7 THEN "stem0"
               ELSE IF p = 8 THEN "stem1" ELSE Rnd(Names)} :
     \E f \in {IF n = "stop" THEN [f |-> n, set |-> StopSet(toks)] ELSE F(n)} :
       /\ fs' = Append(fs, f)
       /\ toks' = ApplyF(f, toks)
       /\ log' = Append(log, toks')
  /\ UNCHANGED <<text, preds, pos, cur, phase>>
Done ==
  /\ phase = "filter" /\ (Len(fs) = MaxFilters \/ Rnd(1..4) = 1)
  /\ phase' = "done"
  /\ UNCHANGED <<text, preds, fs, pos, cur, toks, log>>

Tokenizers == {<<{1, 2, 3, 4}>>, <<>>, <<{}>>, <<{1}, {6}>>, <<{1, 2, 3}, {3, 4, 6}>>, <<{6}, {3}, {5}>>}
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}
InitAll == /\ text \in Texts /\ preds \in Tokenizers
           /\ fs = <<>> /\ pos = 1 /\ cur = <<>> /\ toks = <<>> /\ log = <<>> /\ phase = "scan"
RunAll == Scan \/ ScanEnd
SpecAll == InitAll /\ [][RunAll]_vars

RndChar(x) == LET p == Rnd(1..12) IN
  10 * (IF p <= 3 THEN 1 ELSE IF p <= 5 THEN 2 ELSE IF p = 6 THEN 3 ELSE IF p = 7 THEN 4
        ELSE IF p <= 9 THEN 5 ELSE IF p = 10 THEN 6 ELSE IF p = 11 THEN 7 ELSE 1) + Rnd(0..3)
RndSet(x) == {c \in 1..7 : Rnd(1..3) = 1}
Alnum == <<{1, 2, 3, 4}>>
InitSim == /\ phase = "pick" /\ text = <<>> /\ preds = <<>>
           /\ fs = <<>> /\ pos = 1 /\ cur = <<>> /\ toks = <<>> /\ log = <<>>
Pick == /\ phase = "pick" /\ phase' = "scan"
        /\ \E n \in {Rnd(0..MaxLen)}, k \in {Rnd(0..3)} :
             /\ text' = [i \in 1..n |-> RndChar(i)]
             /\ preds' = IF Rnd(1..2) = 1 THEN Alnum ELSE [i \in 1..k |-> RndSet(i)]
        /\ UNCHANGED <<fs, pos, cur, toks, log>>
NextSim == Pick \/ Scan \/ ScanEnd \/ Filter \/ Done
SpecSim == InitSim /\ [][NextSim]_vars

(* one character of every class between two letters, then lower-cased: the   *)
(* driver realises it by every character there is                            *)
InitSweep == /\ text \in {<<11, c, 12>> : c \in {11, 21, 31, 41, 51}} /\ preds = Alnum
             /\ fs = <<>> /\ pos = 1 /\ cur = <<>> /\ toks = <<>> /\ log = <<>> /\ phase = "scan"
LowerStep == /\ phase = "filter" /\ fs' = <<F("lower")>> /\ toks' = ApplyF(F("lower"), toks)
             /\ log' = Append(log, toks') /\ phase' = "done" /\ UNCHANGED <<text, preds, pos, cur>>
SpecSweep == InitSweep /\ [][Scan \/ ScanEnd \/ LowerStep]_vars

-----------------------------------------------------------------------------
(* a separator cuts a text in two that are tokenized apart, and so does      *)
(* everything that treats tokens one by one: the driver repeats texts        *)
TokensOf(t) == LET RECURSIVE G(_, _)
                   G(r, c) == IF r = <<>> THEN IF c = <<>> THEN <<>> ELSE <<Term(c)>>
                              ELSE IF Kept(Head(r)) THEN G(Tail(r), Append(c, Head(r)))
                              ELSE (IF c = <<>> THEN <<>> ELSE <<Term(c)>>) \o G(Tail(r), <<>>)
               IN G(t, <<>>)
Wise == {"lower", "stop", "stem0", "stem1", "mark1", "mark2", "dup", "id"}
TokenWise == \A i \in 1..Len(fs) : fs[i].f \in Wise
InvRepeat == phase = "done" /\ Len(text) <= 12 /\ ~Kept(50) =>
   /\ TokensOf(text) = Tokens
   /\ TokensOf(text \o <<50>> \o text) = Tokens \o Tokens
   /\ TokenWise => Fold(fs, Tokens \o Tokens) = toks \o toks
InvScan == phase # "pick" /\ log # <<>> => log[1] = Tokens
(* the pipeline is the composition of its filters *)
InvCompose == log # <<>> => toks = Fold(fs, Tokens) /\ Len(log) = Len(fs) + 1
(* joining tokens and what separates them gives the text back: no kept      *)
(* character is lost, none is added                                         *)
InvKept == log # <<>> => Flat(Map(log[1], LAMBDA t : t.c)) = SelectSeq(text, Kept)
StopOK == \A i \in 1..Len(fs) : fs[i].f = "stop" =>
            /\ \A t \in Range(log[i + 1]) : t \notin fs[i].set
            /\ \A t \in Range(log[i]) : t \in fs[i].set \/ Occ(log[i], t) = Occ(log[i + 1], t)
InvStop == phase = "done" => StopOK
Line == ToJson([text |-> text, preds |-> preds, fs |-> fs, log |-> log])
Emit == EmitOn /\ (phase = "done" \/ (phase = "filter" /\ MaxFilters = 0)) => PrintT(Line)
=============================================================================
