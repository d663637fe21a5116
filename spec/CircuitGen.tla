---------------------------- MODULE CircuitGen -----------------------------
(* Generates circuits: behaviours of Circuit (with exact phases) together
   with the program that drives them; each becomes one run of the real code. *)
EXTENDS Circuit, Sequences, TLC, Json
CONSTANTS Depth, Shapes
VARIABLES hist, done
gvars == << ph, bit, hist, done >>
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done

GInit == Init /\ hist = <<>> /\ done = FALSE
GEnc   == \E d \in Reg, b \in Bits, s \in Shapes : Enc(d, b, Mu(b)) /\ Log([op |-> "enc", d |-> d, b |-> b, sh |-> s])
GConst == \E d \in Reg, b \in Bits : Const(d, b, Mu(b)) /\ Log([op |-> "const", d |-> d, b |-> b])
GNot   == \E d, a \in Reg : Set(a) /\ Not(d, a, (-ph[a]) % M) /\ Log([op |-> "not", d |-> d, s |-> <<a>>])
GCopy  == \E d, a \in Reg : Set(a) /\ Copy(d, a, ph[a]) /\ Log([op |-> "copy", d |-> d, s |-> <<a>>])
GGate  == \E g \in Gate2, d, a, b \in Reg : Set(a) /\ Set(b) /\ Gate(g, d, a, b, Mu(Truth(g, bit[a], bit[b])))
                /\ Log([op |-> g, d |-> d, s |-> <<a, b>>])
GMux   == \E d, a, b, c \in Reg : Set(a) /\ Set(b) /\ Set(c) /\ Mux(d, a, b, c, Mu(TruthMux(bit[a], bit[b], bit[c])))
                /\ Log([op |-> "MUX", d |-> d, s |-> <<a, b, c>>])
(* the second copy of the gate disjunct doubles its weight in simulation *)
GGate2 == GGate
GGate3 == GGate
GStop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << ph, bit, hist >>
More == Len(hist) < Depth
GNext == \/ More /\ GEnc
         \/ More /\ GConst
         \/ More /\ GNot
         \/ More /\ GCopy
         \/ More /\ GGate
         \/ More /\ GGate2
         \/ More /\ GGate3
         \/ More /\ GMux
         \/ GStop
GSpec == GInit /\ [][GNext]_gvars

Emit == done => PrintT(ToJson(hist))
=============================================================================
