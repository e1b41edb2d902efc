-------------------------------- MODULE Text --------------------------------
(* From text to answer (C15): documents and queries are sequences of words  *)
(* in some letter case; both go through one analysis, which may fold case,  *)
(* drop stop words and merge words (stemming, or any other function of a    *)
(* single word).  Property: any non-empty selection of a document's words   *)
(* of which the analysis leaves at least one finds the document.            *)
EXTENDS Repo, Json
CONSTANTS NW,        \* words 1..NW
          Noise,     \* the stop words among them
          NClass,    \* merging maps word w to class (w % NClass)
          MaxWords, MaxDocs, MaxSel, EmitOn
VARIABLES feat, docs, sel, sub, phase
vars == <<feat, docs, sel, sub, phase>>

Cases == 0..2     \* as listed, all upper, first letter upper
Words == [w : 1..NW, c : Cases]
Features == {"lower", "stop", "merge"}

(* the analysis of one word: a token, or nothing *)
Keep(f, s) == ~("stop" \in f /\ s.w \in Noise /\ ("lower" \in f \/ s.c = 0))
Token(f, s) == LET c == IF "lower" \in f THEN 0 ELSE s.c IN
               IF "merge" \in f THEN <<s.w % NClass, c>> ELSE <<s.w, c>>
Analyse(f, ws) == Map(SelectSeq(ws, LAMBDA s : Keep(f, s)), LAMBDA s : Token(f, s))

Index == Map(docs, LAMBDA d : [id |-> d.id, raw |-> d.raw, toks |-> Analyse(feat, d.ws)])
Found(e, q) == {r.raw : r \in Range(Engine(e, Index, Analyse(feat, q)))}

(* selections of document d: its words, in any case if case is folded *)
SelWord(s) == IF "lower" \in feat THEN [w : {s.w}, c : Cases] ELSE {s}
Selectable(d) == UNION {SelWord(d.ws[i]) : i \in 1..Len(d.ws)}
Kept(q) == \E i \in 1..Len(q) : Keep(feat, q[i])

-----------------------------------------------------------------------------
Seqs(n, S) == UNION {[1..k -> S] : k \in 0..n}
InitAll == /\ feat \in SUBSET Features
           /\ docs \in {<<[id |-> 1, raw |-> 1, ws |-> w]>> : w \in Seqs(MaxWords, Words)}
           /\ sel = <<>> /\ sub = 1 /\ phase = "select"
NextAll == /\ phase = "select" /\ Len(sel) < MaxSel /\ Len(docs[1].ws) > 0
           /\ \E s \in Selectable(docs[1]) : sel' = Append(sel, s)
           /\ UNCHANGED <<feat, docs, sub, phase>>
SpecAll == InitAll /\ [][NextAll]_vars

Rnd(S) == RandomElement(S)
InitSim == feat = {} /\ docs = <<>> /\ sel = <<>> /\ sub = 0 /\ phase = "pick"
Pick == /\ phase = "pick" /\ phase' = "put"
        /\ feat' = {f \in Features : Rnd(1..3) > 1}
        /\ UNCHANGED <<docs, sel, sub>>
(* most words repeat a few, so that documents overlap *)
RndWord(x) == [w |-> IF Rnd(1..2) = 1 THEN Rnd(1..(NW \div 3)) ELSE Rnd(1..NW),
               c |-> IF Rnd(1..2) = 1 THEN 0 ELSE Rnd(Cases)]
Put1 == /\ phase = "put" /\ Len(docs) < MaxDocs
        /\ \E n \in {Rnd(1..MaxWords)}, id \in {Rnd(1..4)} :
             docs' = Append(docs, [id |-> id, raw |-> Len(docs) + 1, ws |-> [i \in 1..n |-> RndWord(i)]])
        /\ UNCHANGED <<feat, sel, sub, phase>>
Ask == /\ Len(docs) > 0 /\ phase \in {"put", "select"} /\ (Len(docs) = MaxDocs \/ Rnd(1..3) = 1)
       /\ phase' = IF phase = "put" THEN "select" ELSE phase
       /\ \E d \in {Rnd(1..Len(docs))}, n \in {Rnd(1..MaxSel)} :
            /\ sub' = d
            /\ sel' = [i \in 1..n |-> Rnd(SelWord(docs[d].ws[Rnd(1..Len(docs[d].ws))]))]
       /\ UNCHANGED <<feat, docs>>
NextSim == Pick \/ Put1 \/ Ask
SpecSim == InitSim /\ [][NextSim]_vars

-----------------------------------------------------------------------------
InvFound == phase = "select" /\ sel # <<>> /\ Kept(sel) =>
              /\ docs[sub].raw \in Found("hits", sel)
              /\ docs[sub].raw \in Found("linear", sel)
InvNone == phase = "select" /\ ~Kept(sel) => Found("hits", sel) = {} /\ Found("linear", sel) = {}
(* every document whose words include the selection is found as well *)
InvSuper == phase = "select" /\ sel # <<>> /\ Kept(sel) =>
              \A i \in 1..Len(docs) : Range(sel) \subseteq Range(docs[i].ws) => docs[i].raw \in Found("linear", sel)
Emit == EmitOn /\ phase = "select" /\ sel # <<>> =>
  PrintT(ToJson([feat |-> feat, docs |-> docs, sel |-> sel, sub |-> sub, kept |-> Kept(sel)]))
=============================================================================
