----------------------------- MODULE KeyCases ------------------------------
(* Every kind of key switching input: entry point, key with or without
   noise, previous content of the output, shape of the mask, body.         *)
EXTENDS Integers, TLC, Json
VARIABLE c
Shapes == {"rand", "zero", "max", "half", "below", "grid", "mix", "carry", "sparse", "one"}
Init == \E e \in {"assign", "new"}, k \in {"exact", "real"}, o \in {"fresh", "junk", "prev"}, sh \in Shapes, b \in {"rand", "zero", "max", "half"} :
           /\ (e = "new" => o = "fresh")
           /\ c = [e |-> e, k |-> k, o |-> o, sh |-> sh, b |-> b]
Spec == Init /\ [][UNCHANGED c]_c
Emit == PrintT(ToJson(c))
=============================================================================
