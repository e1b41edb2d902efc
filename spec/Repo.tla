-------------------------------- MODULE Repo --------------------------------
(***************************************************************************)
(* The abstract visigoth repository: state, every public operation as a    *)
(* total function from (state, call) to (state, result), and the declarative*)
(* meaning of the search engines.                                          *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   ix : index name -> sequence of documents (insertion order)            *)
(*   al : alias      -> sequence of index names (order of attachment)      *)
(* A document is a record [id, raw, toks]: identifier, stored content (both*)
(* abstracted to numbers, identifiers ordered as the numbers are) and the  *)
(* sequence of tokens its search text analyses to.  The conformance driver *)
(* maps numbers to concrete strings.                                       *)
(*                                                                         *)
(* A call is a record [k, n, m, d, q]: kind, one or two names, a document, *)
(* a query (a sequence of tokens).  Unused fields are "" or <<>>.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

EmptyF == [x \in {} |-> <<>>]
EmptyRepo == [ix |-> EmptyF, al |-> EmptyF]

Range(s) == {s[i] : i \in 1..Len(s)}
Has(s, e) == \E i \in 1..Len(s) : s[i] = e
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Minus(s, e) == SelectSeq(s, LAMBDA x : x # e)
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* first occurrences only *)
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET h == Head(s) IN <<h>> \o Uniq(Minus(Tail(s), h))

-----------------------------------------------------------------------------
(* Search engines, declaratively: what is matched, with which hits, in     *)
(* which order.                                                            *)

Row(d, h) == [id |-> d.id, raw |-> d.raw, hits |-> h]

Matches(d, q) == q # <<>> /\ \A i \in 1..Len(q) : Has(d.toks, q[i])

LinearRows(docs, q) == Map(SelectSeq(docs, LAMBDA d : Matches(d, q)),
                           LAMBDA d : Row(d, Len(q)))

(* stable ascending order of identifiers; all hits are Len(q) *)
HitsRows(docs, q) ==
  LET rows == LinearRows(docs, q)
      ids  == {rows[i].id : i \in 1..Len(rows)}
      RECURSIVE By(_)
      By(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN
                    SelectSeq(rows, LAMBDA r : r.id = m) \o By(S \ {m})
  IN By(ids)

AllRows(docs) == Map(docs, LAMBDA d : Row(d, 0))

Engine(e, docs, q) == CASE e = "hits"   -> HitsRows(docs, q)
                        [] e = "linear" -> LinearRows(docs, q)
                        [] e = "all"    -> AllRows(docs)
                        [] e = "zero"   -> <<>>

-----------------------------------------------------------------------------
(* Name resolution *)

IsIndex(st, n) == n \in DOMAIN st.ix
IsAlias(st, n) == n \in DOMAIN st.al
Known(st, n)   == IsIndex(st, n) \/ IsAlias(st, n)
Targets(st, n) == IF IsIndex(st, n) THEN <<n>>
                  ELSE IF IsAlias(st, n) THEN st.al[n] ELSE <<>>

-----------------------------------------------------------------------------
(* Operations: [st |-> successor state, res |-> result] *)

R(s, r) == [st |-> s, res |-> r]

SetIx(st, n, docs) == [st EXCEPT !.ix = (n :> docs) @@ st.ix]
SetAl(st, a, seq)  == [st EXCEPT !.al = IF seq = <<>> THEN Without(st.al, a)
                                        ELSE (a :> seq) @@ st.al]

Put(st, n, d) ==
  IF ~Known(st, n)
  THEN R(SetIx(st, n, <<d>>), TRUE)
  ELSE LET T == Range(Targets(st, n)) IN
       R([st EXCEPT !.ix = [x \in DOMAIN st.ix |->
            IF x \in T THEN Append(st.ix[x], d) ELSE st.ix[x]]], TRUE)

Alias(st, a, n) ==
  IF ~IsIndex(st, n) THEN R(st, FALSE)
  ELSE IF ~IsAlias(st, a) THEN R(SetAl(st, a, <<n>>), TRUE)
  ELSE IF Has(st.al[a], n) THEN R(st, FALSE)
  ELSE R(SetAl(st, a, Append(st.al[a], n)), TRUE)

(* n = "" removes the whole alias *)
UnAlias(st, a, n) ==
  IF n = "" THEN R(SetAl(st, a, <<>>), IsAlias(st, a))
  ELSE IF ~IsIndex(st, n) \/ ~IsAlias(st, a) THEN R(st, FALSE)
  ELSE R(SetAl(st, a, Minus(st.al[a], n)), TRUE)

Rename(st, o, n) ==
  IF ~IsIndex(st, o) THEN R(st, FALSE)
  ELSE IF o = n THEN R(st, TRUE)
  ELSE R([ix |-> (n :> st.ix[o]) @@ Without(st.ix, o),
          al |-> [a \in DOMAIN st.al |->
                    Uniq(Map(st.al[a], LAMBDA x : IF x = o THEN n ELSE x))]], TRUE)

Drop(st, n) ==
  IF ~IsIndex(st, n) THEN R(st, FALSE)
  ELSE LET keep == {a \in DOMAIN st.al : Minus(st.al[a], n) # <<>>} IN
       R([ix |-> Without(st.ix, n),
          al |-> [a \in keep |-> Minus(st.al[a], n)]], TRUE)

(* Search: an error, or the concatenation over the resolved indices *)
Search(st, n, e, q) ==
  IF ~Known(st, n) THEN [err |-> TRUE, rows |-> <<>>]
  ELSE [err |-> FALSE,
        rows |-> Flat(Map(Targets(st, n), LAMBDA x : Engine(e, st.ix[x], q)))]

ListIx(st) == DOMAIN st.ix
ListAl(st) == {<<a, st.al[a]>> : a \in DOMAIN st.al}

(* Any call.  Reads leave the state alone by construction. *)
Apply(st, c) ==
  CASE c.k = "put"     -> Put(st, c.n, c.d)
    [] c.k = "alias"   -> Alias(st, c.n, c.m)
    [] c.k = "unalias" -> UnAlias(st, c.n, c.m)
    [] c.k = "rename"  -> Rename(st, c.n, c.m)
    [] c.k = "drop"    -> Drop(st, c.n)
    [] c.k = "has"     -> R(st, IsIndex(st, c.n))
    [] c.k = "hasalias"-> R(st, IsAlias(st, c.n))
    [] c.k = "list"    -> R(st, ListIx(st))
    [] c.k = "listal"  -> R(st, ListAl(st))
    [] c.k = "search"  -> R(st, Search(st, c.n, c.m, c.q))
    [] c.k = "string"  -> R(st, TRUE)   \* what it prints is left open
    [] c.k \in {"panicsearch", "panicquery"} -> R(st, TRUE)   \* recovered by the caller

NoDoc == [id |-> 0, raw |-> 0, toks |-> <<>>]
Call(k, n, m, d, q) == [k |-> k, n |-> n, m |-> m, d |-> d, q |-> q]

-----------------------------------------------------------------------------
(* Properties of states and steps, stated independently of the definitions *)
(* above.  c is the call, r its result.                                    *)

(* C05 *)
AliasIntegrity(st) ==
  \A a \in DOMAIN st.al :
    /\ st.al[a] # <<>>
    /\ \A i \in 1..Len(st.al[a]) : IsIndex(st, st.al[a][i])
    /\ \A i, j \in 1..Len(st.al[a]) : st.al[a][i] = st.al[a][j] => i = j

(* the indices / aliases a call designates *)
DesigIx(st, c) == CASE c.k = "put"    -> IF Known(st, c.n) THEN Range(Targets(st, c.n)) ELSE {c.n}
                    [] c.k = "rename" -> IF IsIndex(st, c.n) THEN {c.n, c.m} ELSE {}
                    [] c.k = "drop"   -> {c.n}
                    [] OTHER          -> {}
DesigAl(st, c) == CASE c.k \in {"alias", "unalias"} -> {c.n}
                    [] c.k \in {"rename", "drop"} ->
                         {a \in DOMAIN st.al : Has(st.al[a], c.n)}
                    [] OTHER -> {}

SameAt(f, g, x) == /\ (x \in DOMAIN f) = (x \in DOMAIN g)
                   /\ x \in DOMAIN f => f[x] = g[x]

(* C20 *)
Frame(st, c, r, t) ==
  /\ \A x \in (DOMAIN st.ix \cup DOMAIN t.ix) \ DesigIx(st, c) : SameAt(st.ix, t.ix, x)
  /\ \A a \in (DOMAIN st.al \cup DOMAIN t.al) \ DesigAl(st, c) : SameAt(st.al, t.al, a)
  /\ r = FALSE => t = st

(* C02: documents survive except by drop or replacement; a put adds one    *)
Occ(docs, d) == Cardinality({i \in 1..Len(docs) : docs[i] = d})
PrefixOf(s, u) == Len(s) <= Len(u) /\ \A i \in 1..Len(s) : s[i] = u[i]
Retention(st, c, r, t) ==
  /\ \A x \in DOMAIN st.ix :
       \/ x \in DOMAIN t.ix /\ PrefixOf(st.ix[x], t.ix[x])
       \/ c.k = "drop" /\ c.n = x
       \/ c.k = "rename" /\ r = TRUE /\ c.n = x /\ c.m \in DOMAIN t.ix /\ t.ix[c.m] = st.ix[x]
       \/ c.k = "rename" /\ r = TRUE /\ c.m = x
  /\ c.k = "put" =>
       LET T == DesigIx(st, c) IN
       /\ T # {}
       /\ \A x \in T : /\ x \in DOMAIN t.ix
                       /\ t.ix[x] = (IF x \in DOMAIN st.ix THEN st.ix[x] ELSE <<>>) \o <<c.d>>

(* C07 *)
RenameOK(st, c, r, t) == c.k = "rename" =>
  /\ r = IsIndex(st, c.n)
  /\ r => /\ t.ix[c.m] = st.ix[c.n]
          /\ c.n # c.m => ~IsIndex(t, c.n)
          /\ DOMAIN t.al = DOMAIN st.al
          /\ \A a \in DOMAIN st.al :
               IF Has(st.al[a], c.n)
               THEN Range(t.al[a]) = (Range(st.al[a]) \ {c.n}) \cup {c.m}
               ELSE t.al[a] = st.al[a]

(* C08 *)
DropOK(st, c, r, t) == c.k = "drop" =>
  /\ r = IsIndex(st, c.n)
  /\ ~IsIndex(t, c.n)
  /\ \A a \in DOMAIN t.al : ~Has(t.al[a], c.n)
  /\ \A a \in DOMAIN st.al : IsAlias(t, a) \/ (r /\ Range(st.al[a]) = {c.n})
  /\ DOMAIN t.ix = DOMAIN st.ix \ {c.n}

(* C09 *)
AnswersOK(st, c, r, t) ==
  /\ c.k = "alias" => /\ r = (IsIndex(st, c.m) /\ ~(IsAlias(st, c.n) /\ Has(st.al[c.n], c.m)))
                      /\ r => IsAlias(t, c.n) /\ Has(t.al[c.n], c.m)
  /\ c.k = "unalias" => /\ r = (IsAlias(st, c.n) /\ (c.m = "" \/ IsIndex(st, c.m)))
                        /\ c.m = "" => ~IsAlias(t, c.n)
                        /\ r /\ IsAlias(t, c.n) => ~Has(t.al[c.n], c.m)

(* C06 *)
ResolutionOK(st) == \A n \in DOMAIN st.ix \cup DOMAIN st.al :
  LET s == Search(st, n, "all", <<>>)
      T == IF n \in DOMAIN st.ix THEN {n} ELSE Range(st.al[n])
      d == UNION {{Row(st.ix[x][i], 0) : i \in 1..Len(st.ix[x])} : x \in T}
  IN ~s.err /\ Range(s.rows) = d
=============================================================================
