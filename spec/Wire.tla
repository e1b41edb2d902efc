-------------------------------- MODULE Wire --------------------------------
(* The JSON form of search results (C19).  A JSON value is a tree           *)
(*   [t: "null"] [t: "str", s] [t: "int", n] [t: "other"] [t: "obj", f]     *)
(* f a sequence of fields [k, v]; "other" stands for any further value.     *)
(* Encode gives the tree of a result; the decoder is a machine reading the  *)
(* token stream of a tree left to right with a stack of open objects, as a  *)
(* streaming decoder does; Meaning says what it must produce.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Strs, Ints, EmitOn
VARIABLES tree, cut, pos, stack, out
vars == <<tree, cut, pos, stack, out>>

Null == [t |-> "null"]
Str(s) == [t |-> "str", s |-> s]
Int(n) == [t |-> "int", n |-> n]
Other == [t |-> "other"]
Obj(f) == [t |-> "obj", f |-> f]
Fld(k, v) == [k |-> k, v |-> v]

Encode(r) == Obj(<<Fld("doc", Obj(<<Fld("id", Str(r.id)), Fld("raw", Str(r.raw))>>)), Fld("hits", Int(r.hits))>>)

(* unset: no value; strings and numbers are 1, 2, ... *)
Unset == 0

-----------------------------------------------------------------------------
(* the meaning of a tree *)
Get(f, k) == LET S == {i \in 1..Len(f) : f[i].k = k} IN
             IF S = {} THEN Null ELSE f[CHOOSE i \in S : TRUE].v
Ok(v, t) == v.t \in {"null", t}
Meaning(v) ==
  IF v.t = "null" THEN [err |-> FALSE, id |-> Unset, raw |-> Unset, hits |-> Unset]
  ELSE IF v.t # "obj" THEN [err |-> TRUE, id |-> Unset, raw |-> Unset, hits |-> Unset]
  ELSE LET d == Get(v.f, "doc")
           h == Get(v.f, "hits")
           df == IF d.t = "obj" THEN d.f ELSE <<>>
           i == Get(df, "id")
           r == Get(df, "raw")
           bad == ~Ok(d, "obj") \/ ~Ok(h, "int") \/ ~Ok(i, "str") \/ ~Ok(r, "str")
       IN IF bad THEN [err |-> TRUE, id |-> Unset, raw |-> Unset, hits |-> Unset]
          ELSE [err |-> FALSE,
                id |-> IF i.t = "str" THEN i.s ELSE Unset,
                raw |-> IF r.t = "str" THEN r.s ELSE Unset,
                hits |-> IF h.t = "int" THEN h.n ELSE Unset]

-----------------------------------------------------------------------------
(* the token stream *)
RECURSIVE Tokens(_)
RECURSIVE FieldToks(_)
Tokens(v) == IF v.t = "obj" THEN <<[k |-> "open"]>> \o FieldToks(v.f) \o <<[k |-> "close"]>>
             ELSE <<[k |-> "val", v |-> v]>>
FieldToks(f) == IF f = <<>> THEN <<>>
                ELSE <<[k |-> "key", n |-> Head(f).k]>> \o Tokens(Head(f).v) \o FieldToks(Tail(f))
Stream == SubSeq(Tokens(tree), 1, Len(Tokens(tree)) - cut)

(* stack: what is being read: "top" before the value, "res" / "doc" inside   *)
(* those objects, a field name when its value comes next, "skip" inside an   *)
(* object nobody knows                                                       *)
Top == stack[Len(stack)]
PopS == SubSeq(stack, 1, Len(stack) - 1)
Fail == /\ out' = [out EXCEPT !.err = TRUE] /\ stack' = <<>> /\ pos' = Len(Stream) + 1
Go(s) == /\ stack' = s /\ pos' = pos + 1
Expects == [top |-> "obj", doc |-> "obj", id |-> "str", raw |-> "str", hits |-> "int"]

StepTok ==
  /\ pos <= Len(Stream) /\ UNCHANGED <<tree, cut>>
  /\ LET x == Stream[pos] IN
     IF stack = <<>> THEN Fail                                  \* something after the value
     ELSE IF Top \in {"RES", "DOC", "SKIP"}                     \* inside an object
     THEN IF x.k = "close" THEN Go(PopS) /\ out' = out
          ELSE IF x.k = "key"
               THEN /\ Go(Append(stack, IF \/ Top = "RES" /\ x.n \in {"doc", "hits"}
                                           \/ Top = "DOC" /\ x.n \in {"id", "raw"} THEN x.n ELSE "x"))
                    /\ out' = out
               ELSE Fail
     ELSE IF x.k = "open"                                       \* a value is due
     THEN CASE Top = "top" -> Go(Append(PopS, "RES")) /\ out' = out
            [] Top = "doc" -> Go(Append(PopS, "DOC")) /\ out' = out
            [] Top = "x"   -> Go(Append(PopS, "SKIP")) /\ out' = out
            [] OTHER -> Fail
     ELSE IF x.k = "val"
     THEN IF Top = "x" \/ x.v.t = "null" THEN Go(PopS) /\ out' = out
          ELSE IF x.v.t # Expects[Top] THEN Fail
          ELSE /\ Go(PopS)
               /\ out' = CASE Top = "id" -> [out EXCEPT !.id = x.v.s]
                           [] Top = "raw" -> [out EXCEPT !.raw = x.v.s]
                           [] Top = "hits" -> [out EXCEPT !.hits = x.v.n]
     ELSE Fail
Finish == /\ pos = Len(Stream) + 1 /\ stack # <<>> /\ stack # <<"end">>
          /\ out' = [out EXCEPT !.err = TRUE] /\ stack' = <<"end">> /\ UNCHANGED <<tree, cut, pos>>
Ended == pos = Len(Stream) + 1 /\ stack \in {<<>>, <<"end">>}

-----------------------------------------------------------------------------
(* all results, and all trees with each known field at most once in any     *)
(* order, missing, null, right or wrong, with one unknown field in between   *)
Perms(S) == UNION {{p \in [1..n -> S] : \A a, b \in 1..n : p[a] = p[b] => a = b} : n \in 0..Cardinality(S)}
Vals(k) == CASE k = "id"   -> {Null, Other} \cup {Str(s) : s \in Strs}
             [] k = "raw"  -> {Null, Other} \cup {Str(s) : s \in Strs}
             [] k = "hits" -> {Null, Other} \cup {Int(n) : n \in Ints}
             [] k = "x"    -> {Other}
             [] k = "y"    -> {Obj(<<Fld("hits", Int(1)), Fld("doc", Obj(<<Fld("id", Str(1))>>)), Fld("id", Other)>>)}
(* products of one value per field *)
RECURSIVE Fill(_)
Fill(ks) == IF ks = <<>> THEN {<<>>}
            ELSE {<<Fld(Head(ks), v)>> \o r : v \in Vals(Head(ks)), r \in Fill(Tail(ks))}
DocTrees == {Null, Other} \cup {Obj(f) : f \in UNION {Fill(p) : p \in Perms({"id", "raw", "x"})}}
RECURSIVE FillTop(_)
FillTop(ks) == IF ks = <<>> THEN {<<>>}
               ELSE {<<Fld(Head(ks), v)>> \o r :
                       v \in (IF Head(ks) = "doc" THEN DocTrees ELSE Vals(Head(ks))), r \in FillTop(Tail(ks))}
Trees == {Null, Other} \cup {Obj(f) : f \in UNION {FillTop(p) : p \in Perms({"doc", "hits", "y"})}}

Empty == [err |-> FALSE, id |-> Unset, raw |-> Unset, hits |-> Unset]
Init == /\ tree \in Trees /\ cut = 0 /\ pos = 1 /\ stack = <<"top">> /\ out = Empty
InitCut == /\ tree \in {Encode([id |-> s, raw |-> u, hits |-> n]) : s \in Strs, u \in Strs, n \in Ints}
           /\ cut \in 1..Len(Tokens(tree)) /\ pos = 1 /\ stack = <<"top">> /\ out = Empty
Next == StepTok \/ Finish
Spec == (Init \/ InitCut) /\ [][Next]_vars

InvDecode == Ended /\ cut = 0 => IF out.err THEN Meaning(tree).err ELSE out = Meaning(tree)
InvTruncated == Ended /\ cut > 0 => out.err
InvRoundTrip == pos = 1 => \A s \in Strs, u \in Strs, n \in Ints :
                  Meaning(Encode([id |-> s, raw |-> u, hits |-> n])) = [err |-> FALSE, id |-> s, raw |-> u, hits |-> n]
Emit == EmitOn /\ cut = 0 /\ Ended => PrintT(ToJson([v |-> tree, m |-> Meaning(tree)]))
=============================================================================
