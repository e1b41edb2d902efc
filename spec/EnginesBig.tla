----------------------------- MODULE EnginesBig -----------------------------
(* One large index in closed form: document i contains token t of Toks      *)
(* exactly when t divides i; a token 10000 + t when it does not; 20000 + t  *)
(* when i is one of the first t, 30000 + t one of the last t.  Identifiers  *)
(* are (i * Mul) % NId.  One state per size; the answers follow from arithmetic alone, so sizes and query lengths far     *)
(* beyond enumeration stay cheap.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Toks, NId, Mul, Queries, Long
VARIABLE n

Init == n \in Sizes
Next == UNCHANGED n
Spec == Init /\ [][Next]_n

All == [i \in 1..n |-> i]
Holds(t, i) == CASE t < 10000 -> i % t = 0
                 [] t < 20000 -> i % (t - 10000) # 0
                 [] t < 30000 -> i <= t - 20000
                 [] OTHER -> i > n - (t - 30000)
IdOf(i) == (i * Mul) % NId

(* a query is a set of tokens; asked with repeats it is k tokens long *)
Match(Q) == SelectSeq(All, LAMBDA i : \A t \in Q : Holds(t, i))
RECURSIVE ByIds(_, _)
ByIds(s, k) == IF k = NId THEN <<>>
               ELSE SelectSeq(s, LAMBDA i : IdOf(i) = k) \o ByIds(s, k + 1)

RECURSIVE Lcm(_, _)
Gcd(a, b) == CHOOSE g \in 1..a : a % g = 0 /\ b % g = 0 /\ \A h \in 1..a : (a % h = 0 /\ b % h = 0) => h <= g
Lcm(S, acc) == IF S = {} THEN acc
               ELSE LET t == CHOOSE x \in S : TRUE IN Lcm(S \ {t}, (acc * t) \div Gcd(acc, t))

(* the closed form: a query is matched by the multiples of its least common *)
(* multiple                                                                 *)
Mults(Q) == n \div Lcm(Q, 1)
Min(a, b) == IF a < b THEN a ELSE b
InvClosed == \A Q \in Queries : LET P == {t \in Q : t < 10000}  N == Q \ P IN
               IF N = {} THEN Len(Match(Q)) = Mults(P)
               ELSE IF Cardinality(N) = 1 /\ \A t \in N : t < 20000
               THEN \A t \in N : Len(Match(Q)) = Mults(P) - Mults(P \cup {t - 10000})
               ELSE IF Cardinality(N) = 1 /\ P = {}
               THEN \A t \in N : Len(Match(Q)) = Min(n, t % 10000) ELSE TRUE

Emit == \A Q \in Queries : \E m \in {Match(Q)} : \E b \in {ByIds(m, 0)} :
  PrintT(ToJson([n |-> n, toks |-> Toks, nid |-> NId, mul |-> Mul, q |-> Q, long |-> Long, l |-> m, h |-> b]))
=============================================================================
