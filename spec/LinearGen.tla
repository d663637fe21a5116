----------------------------- MODULE LinearGen ------------------------------
(* Programs of linear operations.  Values and multipliers are named by kind;
   the driver realises them at full size.                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Reg, Depth, Kinds, Mults
VARIABLES hist, done
vars == << hist, done >>
Init == hist = <<>> /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
More == Len(hist) < Depth
NReg == Len(SelectSeq(hist, LAMBDA h : h.op = "load"))
Loaded(r) == \E i \in 1 .. Len(hist) : hist[i].d = r
Load == \E k \in Kinds, d \in Reg : Log([op |-> "load", d |-> d, kind |-> k])
Bin  == \E o \in {"add", "sub", "mul", "addassign", "pnand", "pand", "por", "pxor"}, d, a, b \in Reg :
          Loaded(a) /\ Loaded(b) /\ (o = "addassign" => Loaded(d)) /\ Log([op |-> o, d |-> d, a |-> a, b |-> b])
Un   == \E d, a \in Reg : Loaded(a) /\ Log([op |-> "neg", d |-> d, a |-> a])
Tri  == \E o \in {"addmul", "submul"}, d, a, b \in Reg, m \in Mults :
          Loaded(a) /\ Loaded(b) /\ Log([op |-> o, d |-> d, a |-> a, b |-> b, m |-> m])
Bin2 == Bin
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED hist
Next == \/ More /\ Load
        \/ More /\ Bin
        \/ More /\ Bin2
        \/ More /\ Un
        \/ More /\ Tri
        \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
