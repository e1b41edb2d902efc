------------------------------ MODULE RepoWide -------------------------------
(* Concurrent programs on wide states (tlc -simulate): an alias of many     *)
(* indices, many aliases, an index of many documents; one thread looks at   *)
(* all of it or puts to all of it, the others change single parts.          *)
EXTENDS RepoProg
CONSTANTS Sizes
ASSUME \A k \in Sizes : k >= 2

Name(i) == IF i < 10 THEN "n0" \o ToString(i) ELSE "n" \o ToString(i)
AName(i) == IF i < 10 THEN "a0" \o ToString(i) ELSE "a" \o ToString(i)
WDoc(i) == [id |-> 1 + (i % 4), raw |-> i, toks |-> <<1 + (i % 2)>>]
(* k indices of alias a, every third of alias b as well *)
ManyIx(k) == LET N == {Name(i) : i \in 1..k} IN
  [ix |-> [n \in N |-> <<WDoc(CHOOSE i \in 1..k : Name(i) = n)>>],
   al |-> [x \in {"a", "b"} |-> IF x = "a" THEN [i \in 1..k |-> Name(i)] ELSE [i \in 1..((k + 2) \div 3) |-> Name(k + 3 - 3 * i - ((k + 2) % 3))]]]
(* k aliases of one index, every other one of a second, too *)
ManyAl(k) ==
  [ix |-> [n \in {"n01", "n02"} |-> <<WDoc(IF n = "n01" THEN 1 ELSE 2)>>],
   al |-> [x \in {AName(i) : i \in 1..k} |-> IF (CHOOSE i \in 1..k : AName(i) = x) % 2 = 0 THEN <<"n02", "n01">> ELSE <<"n01">>]]
(* one index of k documents, listed by an alias with another *)
ManyDocs(k) ==
  [ix |-> [n \in {"n01", "n02"} |-> IF n = "n01" THEN [i \in 1..k |-> WDoc(i)] ELSE <<WDoc(k + 1)>>],
   al |-> [x \in {"a", "b"} |-> IF x = "a" THEN <<"n02", "n01">> ELSE <<"n01">>]]

WAl(s) == Rnd(DOMAIN s.al)
WIx(s) == Rnd(DOMAIN s.ix)
Whole(s) ==
  LET p == Rnd(1..100) IN
  CASE p <= 35 -> Call("search", WAl(s), Rnd({"all", "all", "linear", "hits"}), NoDoc, <<1>>)
    [] p <= 50 -> Call("list", "", "", NoDoc, <<>>)
    [] p <= 65 -> Call("listal", "", "", NoDoc, <<>>)
    [] p <= 80 -> Call("put", WAl(s), "", RndDoc(900), <<>>)
    [] p <= 85 -> Call("search", WIx(s), "all", NoDoc, <<1>>)
    [] p <= 92 -> Call("rename", WIx(s), Rnd({"x", WIx(s)}), NoDoc, <<>>)
    [] OTHER   -> Call("drop", WIx(s), "", NoDoc, <<>>)
Part(s, r) ==
  LET p == Rnd(1..100) IN
  CASE p <= 25 -> Call("rename", WIx(s), Rnd({"x", "x", "y", WIx(s)}), NoDoc, <<>>)
    [] p <= 45 -> Call("drop", WIx(s), "", NoDoc, <<>>)
    [] p <= 55 -> Call("put", WIx(s), "", RndDoc(r), <<>>)
    [] p <= 65 -> Call("put", Rnd({"x", "y"}), "", RndDoc(r), <<>>)
    [] p <= 75 -> Call("put", WAl(s), "", RndDoc(r), <<>>)
    [] p <= 85 -> Call("unalias", WAl(s), Rnd({"", WIx(s), WIx(s)}), NoDoc, <<>>)
    [] OTHER   -> Call("alias", Rnd({"x", WAl(s)}), WIx(s), NoDoc, <<>>)
WShapes == {<<1>>, <<2>>, <<1, 1>>, <<3>>}
WProg(s) == LET sh == Rnd({x \in WShapes : s = s}) IN
            <<<<Whole(s)>>>> \o [t \in 1..Len(sh) |-> [k \in 1..sh[t] |-> Part(s, 910 + 10 * t + k)]]

InitW == step = 0 /\ \E k \in Sizes : st \in {ManyIx(k), ManyAl(k), ManyDocs(k)}
NextW == /\ st' = st /\ step' = step + 1
         /\ PrintT(ToJson([s |-> st, th |-> WProg(st), wide |-> TRUE]))
SpecW == InitW /\ [][NextW]_vars
=============================================================================
