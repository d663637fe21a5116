------------------------------ MODULE ParamsAll ------------------------------
(* Every ordered pair of levels, read completely after each selection.      *)
EXTENDS Params, Sequences, TLC, Json
VARIABLE c
Ids == {<< lv, 0 >> : lv \in LevelNames} \cup {<< "?", i >> : i \in {0, 9, 79, 127, 256, -1}}
Init == \E x, y \in Ids : c = [fr |-> x, to |-> y]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(ToJson(c))
=============================================================================
