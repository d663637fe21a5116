------------------------------ MODULE PBSCases ------------------------------
(* Every function of the moduli given: encrypt every message, one table,
   evaluate it on all of them.                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Moduli
VARIABLE c
Case(m, ys) == << [op |-> "mkys", t |-> 1, m |-> m, ys |-> ys] >>
     \o [i \in 1 .. 2 * m |-> IF i % 2 = 1 THEN [op |-> "enc", d |-> 1, m |-> m, x |-> i \div 2, sh |-> 0]
                              ELSE [op |-> "lut", d |-> 2, s |-> 1, t |-> 1]]
Init == \E m \in Moduli : \E ys \in [1 .. m -> 0 .. m - 1] : c = Case(m, ys)
Spec == Init /\ [][UNCHANGED c]_c
Emit == PrintT(ToJson(c))
=============================================================================
