------------------------------ MODULE LutHist -------------------------------
(* Histories of table generations for the conformance driver: operations on
   one generator and three tables; functions are named by kind.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Tab, Depth, Moduli, Ks, Funs
VARIABLES hist, used, done
vars == << hist, used, done >>
Init == hist = <<>> /\ used = {} /\ done = FALSE
Log(r, d) == hist' = Append(hist, r) /\ used' = used \cup d /\ UNCHANGED done
NewGen == \E m \in Moduli, k \in Ks : Log([op |-> "new", m |-> m, k |-> k], {})
HasGen == hist # <<>>
Gen  == HasGen /\ \E d \in Tab, f \in Funs, o \in {"gen", "full"} : Log([op |-> o, d |-> d, f |-> f], {d})
GenA == HasGen /\ \E d \in used, f \in Funs, o \in {"genassign", "fullassign"} : Log([op |-> o, d |-> d, f |-> f], {})
GenB == GenA
Cust == HasGen /\ \E d \in Tab, f \in Funs, m \in Moduli, k \in Ks : Log([op |-> "custom", d |-> d, f |-> f, m |-> m, k |-> k], {d})
(* f gives up during a custom generation: nothing has happened *)
Panic == HasGen /\ \E f \in Funs, m \in Moduli, k \in Ks : Log([op |-> "panic", f |-> f, m |-> m, k |-> k], {})
(* f itself uses the generator; the inner table goes to a *)
Nested == HasGen /\ \E d, a \in Tab, f \in Funs, m \in Moduli, k \in Ks : d # a /\ Log([op |-> "nested", d |-> d, a |-> a, f |-> f, m |-> m, k |-> k], {d, a})
Copy == \E d \in Tab, a \in used : Log([op |-> "copy", d |-> d, a |-> a], {d})
CopyF == \E d \in used, a \in used : Log([op |-> "copyfrom", d |-> d, a |-> a], {})
Clear == \E d \in used : Log([op |-> "clear", d |-> d], {})
Mods == HasGen /\ Log([op |-> "mods"], {})
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << hist, used >>
More == Len(hist) < Depth
Next == IF hist = <<>> THEN NewGen
        ELSE \/ More /\ NewGen
             \/ More /\ Gen
             \/ More /\ GenA
             \/ More /\ GenB
             \/ More /\ Cust
             \/ More /\ Panic
             \/ More /\ Nested
             \/ More /\ Copy
             \/ More /\ CopyF
             \/ More /\ Clear
             \/ More /\ Mods
             \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
