----------------------------- MODULE LevelGen ------------------------------
(* Histories over several security levels: switching, making keys, and every
   kind of operation on the objects of the level selected at the moment.
   Register r of level x has number 10 x + r: 1-3 bits, 5-6 integer
   messages, 7 a lookup table.                                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets
CONSTANTS Depth, Shapes
K == atoi(IOEnv.LEVELS)
NOXOR == atoi(IOEnv.NOXOR)       \* the level index without XOR and XNOR (0: none)
VARIABLES hist, cur, set, done
vars == << hist, cur, set, done >>
Lv == 1 .. K
Init == hist = <<>> /\ cur = 1 /\ set = {} /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
R(i) == 10 * cur + i
Bit == {R(1), R(2), R(3)}
Msg == {R(5), R(6)}
Got(S) == set \cap S
Put(D) == set' = set \cup D
Gates == {"AND", "OR", "NAND", "NOR", "ANDNY", "ANDYN", "ORNY", "ORYN"} \cup (IF cur = NOXOR THEN {} ELSE {"XOR", "XNOR"})
Batched == Gates \cap {"AND", "OR", "NAND", "NOR", "XOR", "XNOR"}
Funs == {"id", "inc", "rev", "neg", "rnd"}
Switch == \E x \in Lv \ {cur} : Log([op |-> "switch", x |-> x]) /\ cur' = x /\ UNCHANGED set
Key == RandomElement(1 .. 8) = 1 /\ Log([op |-> "rekey"]) /\ set' = set \ (Bit \cup Msg) /\ UNCHANGED cur
Enc == \E d \in Bit, b \in BOOLEAN, s \in Shapes : Log([op |-> "enc", d |-> d, b |-> b, sh |-> s]) /\ Put({d}) /\ UNCHANGED cur
Const == \E d \in Bit, b \in BOOLEAN : Log([op |-> "const", d |-> d, b |-> b]) /\ Put({d}) /\ UNCHANGED cur
Lin == \E d \in Bit, a \in Got(Bit), o \in {"not", "copy"} : Log([op |-> o, d |-> d, s |-> << a >>]) /\ Put({d}) /\ UNCHANGED cur
Gate == \E g \in Gates, d \in Bit, a, b \in Got(Bit) : Log([op |-> "gate", g |-> g, d |-> d, s |-> << a, b >>]) /\ Put({d}) /\ UNCHANGED cur
Mux == \E d \in Bit, a, b, c \in Got(Bit) : Log([op |-> "mux", d |-> d, s |-> << a, b, c >>]) /\ Put({d}) /\ UNCHANGED cur
Batch == \E g \in Batched, d \in Bit, a, b, c \in Got(Bit), n \in 1 .. 3 :
           Log([op |-> "batch", g |-> g, d |-> d, ps |-> SubSeq(<< << a, b >>, << c, a >>, << b, b >> >>, 1, n)]) /\ Put({d}) /\ UNCHANGED cur
MEnc == \E d \in Msg, x \in 0 .. 31 : Log([op |-> "menc", d |-> d, xv |-> x]) /\ Put({d}) /\ UNCHANGED cur
Pbs == \E d \in Msg, s \in Got(Msg), f \in Funs, o \in {"func", "funcassign"} : Log([op |-> o, d |-> d, s |-> << s >>, f |-> f]) /\ Put({d}) /\ UNCHANGED cur
Mk == \E f \in Funs : Log([op |-> "mk", d |-> R(7), f |-> f]) /\ Put({R(7)}) /\ UNCHANGED cur
Lut == \E d \in Msg, s \in Got(Msg), o \in {"lut", "lutassign", "luttemp"} : R(7) \in set /\ Log([op |-> o, d |-> d, s |-> << s, R(7) >>]) /\ Put({d}) /\ UNCHANGED cur
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << hist, cur, set >>
More == Len(hist) < Depth
(* a few objects first, so that a level has something to work with *)
Next == \/ More /\ Cardinality(Got(Bit)) < 2 /\ Enc
        \/ More /\ Got(Msg) = {} /\ MEnc
        \/ More /\ Switch
        \/ More /\ Switch
        \/ More /\ Key
        \/ More /\ Enc
        \/ More /\ Const
        \/ More /\ Lin
        \/ More /\ Gate
        \/ More /\ Gate
        \/ More /\ Gate
        \/ More /\ Mux
        \/ More /\ Batch
        \/ More /\ Batch
        \/ More /\ MEnc
        \/ More /\ Pbs
        \/ More /\ Mk
        \/ More /\ Lut
        \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
