------------------------------- MODULE RepoMC -------------------------------
(* Exhaustive exploration of the abstract repository with small constants. *)
(* Checks the state and step properties of Repo and, once per state, prints*)
(* one JSON line: the state, what every name shows in it, and every call's *)
(* result and successor.  The driver replays all of it on the real code.   *)
EXTENDS Repo, Json
CONSTANTS Names,      \* names of indices and aliases
          AliasNames, \* subset usable as alias in alias/unalias calls
          DocIds,     \* documents that can be put
          MaxDocs,    \* bound on documents stored in all indices together
          MaxIx,      \* bound on indices
          EmitOn      \* TRUE: print the graph
VARIABLES st, last
vars == <<st, last>>

(* tokens: every document has token 1; document k also has token k+1 *)
Doc(k) == [id |-> 10 - k, raw |-> k, toks |-> <<1, k + 1>>]

RECURSIVE SumLen(_, _)
SumLen(f, D) == IF D = {} THEN 0
                ELSE LET x == CHOOSE y \in D : TRUE IN Len(f[x]) + SumLen(f, D \ {x})
NDocs(s) == SumLen(s.ix, DOMAIN s.ix)

All == Names \cup AliasNames
Calls == {Call("put", n, "", Doc(k), <<>>) : n \in All, k \in DocIds}
   \cup  {Call("alias", a, n, NoDoc, <<>>) : a \in AliasNames, n \in Names}
   \cup  {Call("unalias", a, n, NoDoc, <<>>) : a \in AliasNames, n \in Names \cup {""}}
   \cup  {Call("rename", o, n, NoDoc, <<>>) : o \in All, n \in All}
   \cup  {Call("drop", n, "", NoDoc, <<>>) : n \in All}

InBounds(s) == NDocs(s) <= MaxDocs /\ Cardinality(DOMAIN s.ix) <= MaxIx

Queries == {<<1>>, <<1, 2>>}
Show(s) == [n \in All |->
             [err |-> ~Known(s, n),
              isx |-> IsIndex(s, n), isa |-> IsAlias(s, n),
              all |-> Search(s, n, "all", <<>>).rows,
              h1  |-> Search(s, n, "hits", <<1>>).rows,
              l1  |-> Search(s, n, "linear", <<1>>).rows,
              h2  |-> Search(s, n, "hits", <<1, 2>>).rows]]

Line(s) == ToJson([s |-> s, show |-> Show(s),
                   tr |-> {[c |-> c, r |-> Apply(s, c).res, t |-> Apply(s, c).st,
                            inb |-> InBounds(Apply(s, c).st),
                            dix |-> DesigIx(s, c), dal |-> DesigAl(s, c)] :
                             c \in Calls}])

Init == st = EmptyRepo /\ last = [c |-> Call("list", "", "", NoDoc, <<>>), r |-> TRUE]
Step(c) == LET a == Apply(st, c) IN
           /\ InBounds(a.st)
           /\ st' = a.st
           /\ last' = [c |-> c, r |-> a.res]
PutStep     == \E n \in All, k \in DocIds : Step(Call("put", n, "", Doc(k), <<>>))
AliasStep   == \E a \in AliasNames, n \in Names : Step(Call("alias", a, n, NoDoc, <<>>))
UnAliasStep == \E a \in AliasNames, n \in Names \cup {""} : Step(Call("unalias", a, n, NoDoc, <<>>))
RenameStep  == \E o \in All, n \in All : Step(Call("rename", o, n, NoDoc, <<>>))
DropStep    == \E n \in All : Step(Call("drop", n, "", NoDoc, <<>>))
Next == PutStep \/ AliasStep \/ UnAliasStep \/ RenameStep \/ DropStep
Spec == Init /\ [][Next]_vars
View == st

Emit == EmitOn => PrintT(Line(st))
InvAlias == AliasIntegrity(st)
InvResolve == ResolutionOK(st)
StepFrame     == [][Frame(st, last'.c, last'.r, st')]_vars
StepRetention == [][Retention(st, last'.c, last'.r, st')]_vars
StepRename    == [][RenameOK(st, last'.c, last'.r, st')]_vars
StepDrop      == [][DropOK(st, last'.c, last'.r, st')]_vars
StepAnswers   == [][AnswersOK(st, last'.c, last'.r, st')]_vars
=============================================================================
