------------------------------ MODULE LutCases ------------------------------
(* Every modulus with every function kind and generator variant, as short
   histories: generate into a fresh table, or over a stale one.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Moduli, Funs
VARIABLE c
Case(m, f, o) == CASE o \in {"gen", "full"} -> << [op |-> "new", m |-> m, k |-> 2], [op |-> o, d |-> 1, f |-> f] >>
                   [] o \in {"genassign", "fullassign"} -> << [op |-> "new", m |-> m, k |-> 2], [op |-> "gen", d |-> 1, f |-> "big"], [op |-> o, d |-> 1, f |-> f] >>
                   [] o = "custom" -> << [op |-> "new", m |-> 4, k |-> 2], [op |-> "custom", d |-> 1, f |-> f, m |-> m, k |-> 3], [op |-> "gen", d |-> 2, f |-> f], [op |-> "mods"] >>
Init == \E m \in Moduli, f \in Funs, o \in {"gen", "full", "genassign", "fullassign", "custom"} : c = Case(m, f, o)
Spec == Init /\ [][UNCHANGED c]_c
Emit == PrintT(ToJson(c))
=============================================================================
