------------------------------- MODULE NoiseGen ------------------------------
(* Circuits whose output noise is measured: inputs of every shape and error
   within the decodable range, gates and programmable bootstraps by every
   entry point, registers reused so that depth grows.                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
MMax == atoi(IOEnv.MMAX)           \* largest message modulus of the level; 0: gates
Reg == 1 .. 4
VARIABLES m, cat, have, hist, done
vars == << m, cat, have, hist, done >>
G2 == {"AND", "OR", "NAND", "NOR", "XOR", "XNOR", "ANDNY", "ANDYN", "ORNY", "ORYN"}
GB == {"AND", "OR", "NAND", "NOR", "XOR", "XNOR"}
GE == {"AND", "OR", "NAND", "XOR"}
Init == /\ m \in (IF MMax = 0 THEN {0} ELSE {x \in {2, 3, 4, 5, 8, 16, 32} : x <= MMax}) /\ have = {} /\ hist = <<>> /\ done = FALSE /\ cat = ""
Put(d, r) == have' = have \cup d /\ hist' = Append(hist, r) /\ cat' = "" /\ UNCHANGED << m, done >>
Pick(s) == RandomElement(s)
Cats == IF MMax = 0 THEN << "load", "gate", "gate", "gate", "gate", "eval", "batch", "mux" >> ELSE << "load", "boot", "boot", "boot", "boot" >>
Choose == cat = "" /\ Len(hist) < Depth
          /\ cat' = (IF have = {} \/ (Len(hist) < 4 /\ have # Reg) THEN "load" ELSE Cats[RandomElement(1 .. Len(Cats))])
          /\ UNCHANGED << m, have, hist, done >>
\* shapes 11.. carry an error of plus or minus the allowed size
Load == cat = "load" /\ \E d \in (IF Len(hist) < 4 /\ Reg \ have # {} THEN Reg \ have ELSE Reg) :
          Put({d}, [op |-> "load", d |-> d, sh |-> Pick(0 .. 20), x |-> Pick(0 .. (IF m = 0 THEN 1 ELSE m - 1))])
Gate == cat = "gate" /\ \E d \in Reg, a, b \in have : Put({d}, [op |-> "gate", d |-> d, a |-> a, b |-> b, g |-> Pick(G2)])
Eval == cat = "eval" /\ \E d \in Reg, a, b \in have : Put({d}, [op |-> "eval", d |-> d, a |-> a, b |-> b, g |-> Pick(GE), via |-> Pick({"ret", "assign"})])
Mux  == cat = "mux" /\ \E d \in Reg, a, b, c \in have : Put({d}, [op |-> "mux", d |-> d, a |-> a, b |-> b, c |-> c])
Batch == cat = "batch" /\ \E k \in 1 .. 4 : Put(1 .. k, [op |-> "batch", g |-> Pick(GB), as |-> [i \in 1 .. k |-> Pick(have)], bs |-> [i \in 1 .. k |-> Pick(have)]])
Boot == cat = "boot" /\ \E d \in Reg, s \in have :
          Put({d}, [op |-> "boot", d |-> d, s |-> s, via |-> Pick({"func", "funcassign", "lut", "luttemp", "lutassign", "full"}), ys |-> [i \in 1 .. m |-> Pick(0 .. m - 1)]])
Stop == Len(hist) = Depth /\ cat = "" /\ ~done /\ done' = TRUE /\ UNCHANGED << m, cat, have, hist >>
Next == Choose \/ Load \/ Gate \/ Eval \/ Mux \/ Batch \/ Boot \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson([m |-> m, ops |-> hist]))
=============================================================================
