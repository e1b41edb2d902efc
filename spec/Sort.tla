-------------------------------- MODULE Sort --------------------------------
(* Sorting search results (C23): more hits first, equal hits by ascending   *)
(* identifier.  The machine exchanges any two neighbours that are out of    *)
(* order, in any order it likes; wherever it stops, the sequence is sorted. *)
(* A row is <<hits, identifier, serial>>; the serial tells rows apart and   *)
(* plays no part in the order.                                              *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Hits, NId, MaxLen, EmitOn
VARIABLES in, rows
vars == <<in, rows>>
Less(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Keys == Hits \X (1..NId)
Seqs == UNION {[1..k -> Keys] : k \in 0..MaxLen}
Tag(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2], i>>]
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]

Init == \E s \in Seqs : in = Tag(s) /\ rows = in
Next == /\ UNCHANGED in
        /\ \E i \in 1..(Len(rows) - 1) : Less(rows[i + 1], rows[i]) /\ rows' = Swap(rows, i)
Spec == Init /\ [][Next]_vars

Rnd(S) == RandomElement(S)
InitSim == in = <<>> /\ rows = <<>>
NextSim == /\ Len(in) < MaxLen
           /\ \E r \in {<<Rnd(Hits), Rnd(1..NId), Len(in) + 1>>} : in' = Append(in, r)
           /\ rows' = rows
SpecSim == InitSim /\ [][NextSim]_vars

(* the declarative meaning: who comes before whom, whatever the machine did *)
Before(s, i) == Cardinality({j \in 1..Len(s) : Less(s[j], s[i]) \/ (~Less(s[i], s[j]) /\ j < i)})
Sorted(s) == [p \in 1..Len(s) |-> s[CHOOSE i \in 1..Len(s) : Before(s, i) = p - 1]]

Final == ~ENABLED Next
InvPerm == \A i \in 1..Len(in) : \E j \in 1..Len(rows) : rows[j] = in[i]
InvSorted == Final => rows = Sorted(in)      \* adjacent exchanges keep equals in order
InvOrder == \A a, b \in Keys : /\ ~(Less(a, b) /\ Less(b, a))
                               /\ a # b => Less(a, b) \/ Less(b, a)
                               /\ \A d \in Keys : Less(a, b) /\ Less(b, d) => Less(a, d)
Emit == EmitOn /\ rows = in => PrintT(ToJson([in |-> in, out |-> Sorted(in)]))
EmitSim == EmitOn /\ Len(in) \in {MaxLen, MaxLen \div 2} => PrintT(ToJson([in |-> in, out |-> Sorted(in)]))
=============================================================================
