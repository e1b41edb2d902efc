-------------------------------- MODULE Keys --------------------------------
(* Hash keys of documents (C22): Key is some function of the identifier     *)
(* alone that tells identifiers apart; nothing else about it is fixed.      *)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS Letters, MaxLen, Contents, EmitOn
Ids == UNION {[1..k -> Letters] : k \in 0..MaxLen}
Docs == [id : Ids, c : Contents]
VARIABLES doc, seen   \* seen: the key each identifier was first given
vars == <<doc, seen>>
Key(d) == <<"key", d.id>>
Init == /\ doc \in Docs /\ seen = Key(doc)
Next == \E c \in Contents : doc' = [doc EXCEPT !.c = c] /\ UNCHANGED seen
Spec == Init /\ [][Next]_vars
InvAlone == seen = Key(doc)
InvApart == \A i \in Ids : Key([doc EXCEPT !.id = i]) = Key(doc) => i = doc.id
Emit == EmitOn => PrintT(ToJson([id |-> doc.id, c |-> doc.c]))
=============================================================================
