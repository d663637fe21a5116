----------------------------- MODULE BatchSweep -----------------------------
(* Every batch size up to a bound, for every gate: behaviour c (a residue
   class) encrypts four wires and then runs one batch of each size of its
   class, gates rotating, operands drawn with repetition.  Together the
   behaviours cover all sizes, so no chunk size, worker count or remainder
   handling inside the library stays unvisited.                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Classes, Extra      \* Extra: further, larger sizes
ExtraDef == << 128, 129, 100, 256, 127 >>
Max == atoi(IOEnv.SWEEPMAX)
Turn == atoi(IOEnv.SWEEPTURN) \* shifts which gate meets which size
BGates == << "AND", "OR", "NAND", "NOR", "XOR", "XNOR" >>
VARIABLES c, hist, k, done
vars == << c, hist, k, done >>
Init == c \in 0 .. Classes - 1 /\ hist = <<>> /\ k = c /\ done = FALSE
Log(r) == hist' = Append(hist, r)
Pairs(n) == TLCEval([i \in 1 .. n |-> << RandomElement(1 .. 4), RandomElement(1 .. 4) >>])
Enc == /\ Len(hist) < 4 /\ Log([op |-> "enc", d |-> Len(hist) + 1, b |-> Len(hist) % 2 = 0, sh |-> TLCEval(RandomElement(0 .. 12))])
       /\ UNCHANGED << c, k, done >>
Batch(n) == Log([op |-> "batch", bs |-> << [g |-> BGates[1 + ((n \div Classes + n + Turn) % 6)], ps |-> Pairs(n)] >>])
Sizes == Len(hist) >= 4 /\ k <= Max /\ Batch(k) /\ k' = k + Classes /\ UNCHANGED << c, done >>
Big == Len(hist) >= 4 /\ k > Max /\ ~done /\ done' = TRUE /\ UNCHANGED << c, k >>
       /\ IF c + 1 <= Len(Extra) THEN Batch(Extra[c + 1]) ELSE UNCHANGED hist
Next == Enc \/ Sizes \/ Big
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
