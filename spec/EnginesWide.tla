---------------------------- MODULE EnginesWide -----------------------------
(* Few documents with very many tokens, in closed form, dual to EnginesBig: *)
(* document i has the token t exactly when i divides t <= W; a query is     *)
(* matched by the common divisors of its tokens.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Docs, W, Queries, Probe
VARIABLE n

Init == n = Docs
Next == UNCHANGED n
Spec == Init /\ [][Next]_n

Match(Q) == SelectSeq([i \in 1..n |-> i], LAMBDA i : \A t \in Q : t % i = 0)
Post(t) == SelectSeq([i \in 1..n |-> i], LAMBDA i : t % i = 0)
NTokens(i) == W \div i

Gcd(a, b) == CHOOSE g \in 1..a : a % g = 0 /\ b % g = 0 /\ \A h \in 1..a : (a % h = 0 /\ b % h = 0) => h <= g
RECURSIVE GcdS(_, _)
GcdS(S, acc) == IF S = {} THEN acc ELSE LET t == CHOOSE x \in S : TRUE IN GcdS(S \ {t}, Gcd(acc, t))
Divisors(g) == SelectSeq([i \in 1..n |-> i], LAMBDA i : g % i = 0)

(* a query is matched by the divisors of its greatest common divisor *)
InvClosed == \A Q \in Queries : LET t == CHOOSE x \in Q : \A y \in Q : x <= y IN Match(Q) = Divisors(GcdS(Q, t))

Emit == /\ \A Q \in Queries : PrintT(ToJson([n |-> n, w |-> W, q |-> Q, l |-> Match(Q)]))
        /\ \A t \in Probe : PrintT(ToJson([n |-> n, w |-> W, q |-> {t}, l |-> Post(t)]))
=============================================================================
