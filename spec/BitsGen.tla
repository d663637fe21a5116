------------------------------- MODULE BitsGen -------------------------------
(* Programs over encrypted words: registers of equal width, word operations
   built from gates by one of several constructions.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
MaxMul == atoi(IOEnv.MAXMUL)
Reg == 1 .. 3
Pats == {"zeros", "ones", "alt", "first", "last", "rand", "rand2", "rand3"}
Flavours == {"plain", "mux", "nand", "batch", "alt"}
Ops == {"load", "add", "sub", "cmp", "sel", "mul", "bitop", "copy"}
VARIABLES w, cat, have, hist, done
vars == << w, cat, have, hist, done >>
Init == /\ w \in {1, 2, 3, 4, 5, 8} /\ have = {} /\ hist = <<>> /\ done = FALSE /\ cat = ""
Put(d, r) == have' = have \cup {d} /\ hist' = Append(hist, r) /\ cat' = "" /\ UNCHANGED << w, done >>
Fl == RandomElement(Flavours)
Choose == cat = "" /\ Len(hist) < Depth /\ cat' \in (IF have = {} THEN {"load"} ELSE IF w <= MaxMul THEN Ops ELSE Ops \ {"mul"}) /\ UNCHANGED << w, have, hist, done >>
Load == cat = "load" /\ \E d \in Reg, p \in Pats, k \in {IF RandomElement(1 .. 4) = 1 THEN 1 ELSE 0} :  \* k: encrypted or public constants
          Put(d, [op |-> "load", d |-> d, a |-> k, b |-> 0, s |-> 0, f |-> p])
Bin(o) == cat = o /\ \E d \in Reg, a, b \in have : Put(d, [op |-> o, d |-> d, a |-> a, b |-> b, s |-> 0, f |-> Fl])
\* d := a where the comparison register says so, else b
Sel == cat = "sel" /\ \E d \in Reg, a, b, s \in have : Put(d, [op |-> "sel", d |-> d, a |-> a, b |-> b, s |-> s, f |-> Fl])
BitOp == cat = "bitop" /\ \E d \in Reg, a, b \in have, o \in {"and", "or", "xor", "nand", "nor", "xnor", "not"} : Put(d, [op |-> o, d |-> d, a |-> a, b |-> b, s |-> 0, f |-> Fl])
Copy == cat = "copy" /\ \E d \in Reg, a \in have : Put(d, [op |-> "copy", d |-> d, a |-> a, b |-> 0, s |-> 0, f |-> ""])
Stop == Len(hist) = Depth /\ cat = "" /\ ~done /\ done' = TRUE /\ UNCHANGED << w, cat, have, hist >>
Next == Choose \/ Load \/ Bin("add") \/ Bin("sub") \/ Bin("cmp") \/ Bin("mul") \/ Sel \/ BitOp \/ Copy \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson([w |-> w, ops |-> hist]))
=============================================================================
