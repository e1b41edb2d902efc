-------------------------------- MODULE Lin ---------------------------------
(* Trace validation of concurrent histories recorded from the real code.   *)
(* A history: the state it starts from, operations with their results and  *)
(* the logical times of call and return, and the state observed at the end *)
(* with the searches made then (fin.se).                                   *)
(* It is accepted in a mode when there is an order of the operations,      *)
(* consistent with real time, in which the specification (Repo!Apply)      *)
(* yields what the mode binds:                                             *)
(*   "all"     every result (search rows and alias lists as bags), and the *)
(*             whole final state                                           *)
(*   "exact"   as "all", search rows as sequences with their hits          *)
(*   "content" only the documents searches show and the final documents    *)
(*   "answers" every result but a search's, and the final listings         *)
(*   "reach"   as "answers", and whether a search fails                    *)
(* Acceptance is printed; what is not printed is rejected.                 *)
EXTENDS Repo, Json
CONSTANTS File, Modes
H == ndJsonDeserialize(File)

(* sequences of <<key, value>> to functions *)
Fun(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |->
              (CHOOSE i \in 1..Len(ps) : ps[i][1] = k)]
ToFun(ps) == LET f == Fun(ps) IN [k \in DOMAIN f |-> ps[f[k]][2]]
State(s) == [ix |-> ToFun(s.ix), al |-> ToFun(s.al)]

VARIABLES h, mode, done, st
vars == <<h, mode, done, st>>

Ops == H[h].ops
N == Len(Ops)

Count(s, e) == Cardinality({i \in 1..Len(s) : s[i] = e})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
Raws(rows) == [i \in 1..Len(rows) |-> rows[i].raw]

AlMatch(obs, al) == /\ Len(obs) = Cardinality(DOMAIN al)
                    /\ \A i \in 1..Len(obs) :
                         /\ obs[i][1] \in DOMAIN al
                         /\ SameBag(obs[i][2], al[obs[i][1]])

ResOK(o, r) ==
  CASE o.c.k = "search" ->
         (CASE mode = "answers" -> TRUE
           [] mode = "reach"   -> o.res.err = r.err
           [] mode = "content" -> ~o.res.err => SameBag(Raws(o.res.rows), Raws(r.rows))
           [] mode = "all"     -> o.res.err = r.err /\ SameBag(Raws(o.res.rows), Raws(r.rows))
           [] mode = "exact"   -> o.res.err = r.err /\ o.res.rows = r.rows)
    [] mode = "content" -> TRUE
    [] o.c.k = "list"   -> Range(o.res.list) = r /\ Len(o.res.list) = Cardinality(r)
    [] o.c.k = "listal" -> AlMatch(o.res.al, [a \in {p[1] : p \in r} |-> (CHOOSE p \in r : p[1] = a)[2]])
    [] OTHER            -> o.res.b = r

FinOK ==
  LET f == H[h].fin IN
  /\ {f.ix[i][1] : i \in 1..Len(f.ix)} = DOMAIN st.ix
  /\ mode \notin {"answers", "reach"} =>
     \A i \in 1..Len(f.ix) : IF mode = "exact" THEN f.ix[i][2] = [j \in 1..Len(st.ix[f.ix[i][1]]) |-> st.ix[f.ix[i][1]][j].raw]
                             ELSE SameBag(f.ix[i][2], [j \in 1..Len(st.ix[f.ix[i][1]]) |-> st.ix[f.ix[i][1]][j].raw])
  /\ mode # "content" => AlMatch(f.al, st.al)
  /\ mode # "answers" => \A i \in 1..Len(f.se) : ResOK(f.se[i], Apply(st, f.se[i].c).res)

Init == /\ h \in 1..Len(H)
        /\ mode \in Modes
        /\ done = {}
        /\ st = State(H[h].s)
Next == \E k \in (1..N) \ done :
          /\ \A j \in (1..N) \ (done \cup {k}) : ~(Ops[j].ret < Ops[k].call)
          /\ LET a == Apply(st, Ops[k].c) IN
             /\ ResOK(Ops[k], a.res)
             /\ st' = a.st
          /\ done' = done \cup {k}
          /\ UNCHANGED <<h, mode>>
Spec == Init /\ [][Next]_vars
Accept == (done = 1..N /\ FinOK) => PrintT(<<"ACCEPT", h, mode>>)
=============================================================================
