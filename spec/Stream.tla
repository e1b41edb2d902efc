------------------------------- MODULE Stream -------------------------------
(* What a search hands out is read later, a row at a time (C28).  A stream  *)
(* holds the rows of its search; reading moves its own cursor and nothing   *)
(* else, whatever other streams and the repository do in between.           *)
(* got is a ghost: what has been delivered so far.                          *)
EXTENDS RepoSim
CONSTANTS NStr, MaxRaw
VARIABLES open, got
svars == <<vars, phase, sub, open, got>>
Slots == 1..NStr

Shut == [on |-> FALSE, rows |-> <<>>, at |-> 0]
Readable(s) == open[s].on
Here(s) == open[s].at >= 1 /\ open[s].at <= Len(open[s].rows)
Min(a, b) == IF a < b THEN a ELSE b

(* the operations on a stream *)
OpenS(s, c) == LET a == Search(st, c.n, c.m, c.q) IN
               IF a.err THEN UNCHANGED <<open, got>>
               ELSE /\ open' = [open EXCEPT ![s] = [on |-> TRUE, rows |-> a.rows, at |-> 0]]
                    /\ got' = [got EXCEPT ![s] = <<>>]
NextS(s) == LET o == open[s] IN
            /\ open' = [open EXCEPT ![s].at = Min(o.at + 1, Len(o.rows) + 1)]
            /\ got' = IF o.at < Len(o.rows) THEN [got EXCEPT ![s] = Append(@, o.rows[o.at + 1])] ELSE got
RestS(s) == LET o == open[s] IN
            /\ open' = [open EXCEPT ![s].at = Len(o.rows) + 1]
            /\ got' = [got EXCEPT ![s] = o.rows]
CloseS(s) == open' = [open EXCEPT ![s].on = FALSE] /\ got' = got

(* small instances, exhaustively *)
Small == {Call("put", n, "", [id |-> 1, raw |-> r, toks |-> <<1>>], <<>>) : n \in Names \cup AliasNames, r \in 1..MaxRaw}
         \cup {Call("drop", n, "", NoDoc, <<>>) : n \in Names}
         \cup {Call("alias", a, n, NoDoc, <<>>) : a \in AliasNames, n \in Names}
         \cup {Call("rename", n, m, NoDoc, <<>>) : n \in Names, m \in Names}
Asked == {Call("search", n, e, NoDoc, <<1>>) : n \in Names \cup AliasNames, e \in {"hits", "all"}}
InitS == Init /\ phase = "str" /\ sub = 0 /\ open = [s \in Slots |-> Shut] /\ got = [s \in Slots |-> <<>>]
Same == UNCHANGED <<held, step, phase, sub>>
NextAll ==
  \/ \E c \in Small : st' = Apply(st, c).st /\ (\A n \in DOMAIN st'.ix : Len(st'.ix[n]) <= 2) /\ UNCHANGED <<open, got>> /\ Same
  \/ \E s \in Slots : st' = st /\ Same /\ (\/ \E c \in Asked : OpenS(s, c)
                                           \/ Readable(s) /\ (NextS(s) \/ RestS(s) \/ CloseS(s)))
SpecAll == InitS /\ [][NextAll]_svars

(* each row once, in order; the end is the end *)
InvGot == \A s \in Slots : got[s] = SubSeq(open[s].rows, 1, Min(open[s].at, Len(open[s].rows)))
(* a step changes one stream at most, and no stream together with the repository *)
StepOwn == [][/\ \A s, u \in Slots : s # u /\ open'[s] # open[s] => open'[u] = open[u]
              /\ st' # st => open' = open
              /\ \A s \in Slots : open'[s].rows # open[s].rows => open'[s].at = 0 /\ st' = st]_svars

(* long behaviours *)
StrCall(s) == LET c == RndCall(s) IN IF c.k = "search" THEN Call("has", c.n, "", NoDoc, <<>>) ELSE c
Full(s) == {n \in Names \cup AliasNames : Len(Search(s, n, "all", <<>>).rows) > 1}
Several(s) == {n \in Full(s) : Len(Targets(s, n)) > 1}
RndFull(s, p) == IF p % 3 = 1 /\ Several(s) # {} THEN Rnd(Several(s)) ELSE IF p % 10 # 0 /\ Full(s) # {} THEN Rnd(Full(s)) ELSE RndAny(s)
NextStr ==
  \E s \in {Rnd({x \in Slots : step >= 0})}, k1 \in {Rnd({x \in 1..100 : step >= 0})}, p \in {Rnd({x \in 1..100 : step >= 0})} :
    \E k \in {CASE k1 <= 30 -> "call" [] k1 <= 45 -> "open"
                [] ~Readable(s) -> "call"
                [] p <= 44 -> "next" [] p <= 84 -> (IF Here(s) THEN "data" ELSE "next")
                [] p <= 90 -> "err" [] p <= 95 -> "rest" [] OTHER -> "close"} :
      \E c \in {IF k = "open" THEN Call("search", RndFull(st, p), CASE p <= 30 -> "hits" [] p <= 50 -> "linear" [] p <= 97 -> "all" [] OTHER -> "zero", NoDoc, RndSeq(MaxQ, NTok))
                ELSE StrCall(st)} :
        \E a \in {IF c.k \in Scrib THEN R(st, TRUE) ELSE Apply(st, c)} :
          /\ st' = IF k = "call" THEN a.st ELSE st
          /\ (CASE k = "open" -> OpenS(s, c) [] k = "next" -> NextS(s) [] k = "rest" -> RestS(s) [] k = "close" -> CloseS(s)
                [] OTHER -> UNCHANGED <<open, got>>)
          /\ step' = step + 1
          /\ UNCHANGED <<held, phase, sub>>
          /\ PrintT(ToJson([i |-> step, k |-> k, s |-> s, c |-> c, res |-> IF k \in {"call", "open"} THEN a.res ELSE TRUE,
                            more |-> Here(s)', row |-> IF Here(s) THEN open[s].rows[open[s].at] ELSE [id |-> 0, raw |-> 0, hits |-> 0],
                            left |-> IF k = "rest" THEN SubSeq(open[s].rows, Min(open[s].at, Len(open[s].rows)) + 1, Len(open[s].rows)) ELSE <<>>]))
SpecStr == InitS /\ [][NextStr]_svars
=============================================================================
