------------------------------ MODULE BatchGen ------------------------------
(* Histories of batch calls: encrypted wires, batches of any size with any
   pattern of operands (drawn with repetition from few wires), several
   callers at once, batched blind rotations, results fed back as wires.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Reg, Depth, Sizes, ParSizes, Shapes
BGates == {"AND", "OR", "NAND", "NOR", "XOR", "XNOR"}
VARIABLES hist, set, outs, done        \* outs: sizes of the result lists kept so far
vars == << hist, set, outs, done >>
Init == hist = <<>> /\ set = {} /\ outs = <<>> /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Pairs(k) == TLCEval([i \in 1 .. k |-> << RandomElement(set), RandomElement(set) >>])
Enc == \E d \in Reg, b \in BOOLEAN, sh \in Shapes : Log([op |-> "enc", d |-> d, b |-> b, sh |-> sh]) /\ set' = set \cup {d} /\ UNCHANGED outs
Many == set # {} /\ \E g \in BGates, k \in Sizes : (k = 0 \/ set # {})
        /\ Log([op |-> "batch", bs |-> << [g |-> g, ps |-> Pairs(k)] >>]) /\ outs' = Append(outs, k) /\ UNCHANGED set
Rot  == set # {} /\ \E g \in BGates, k \in Sizes : Log([op |-> "rot", bs |-> << [g |-> g, ps |-> Pairs(k)] >>]) /\ outs' = outs /\ UNCHANGED set
Par  == set # {} /\ \E g, h, i \in BGates, k, m \in ParSizes :
          Log([op |-> "batch", bs |-> << [g |-> g, ps |-> Pairs(k)], [g |-> h, ps |-> Pairs(m)], [g |-> i, ps |-> Pairs(1)] >>])
          /\ outs' = outs \o << k, m, 1 >> /\ UNCHANGED set
Use  == \E d \in Reg, h \in 1 .. Len(outs) : outs[h] > 0 /\ \E j \in 1 .. outs[h] :
          Log([op |-> "use", d |-> d, h |-> h, j |-> j]) /\ set' = set \cup {d} /\ UNCHANGED outs
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << hist, set, outs >>
More == Len(hist) < Depth
Next == IF Len(hist) < 3 THEN Enc
        ELSE \/ More /\ Enc
             \/ More /\ Many
             \/ More /\ Rot
             \/ More /\ Par
             \/ More /\ Use
             \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
