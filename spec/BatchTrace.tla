----------------------------- MODULE BatchTrace -----------------------------
(* Judges recorded batches: length, decryption and phase of every element
   against the plaintext gate on the operands' bits, and, after every further
   operation, the fingerprints of all results handed out before.            *)
EXTENDS Gates, TraceLib, Levels
CONSTANTS Reg
VARIABLES l, lv, bit, hb, hf, wf, rf
tvars == << l, lv, bit, hb, hf, wf, rf >>
TInit == l = 1 /\ lv = "128" /\ bit = [r \in Reg |-> FALSE] /\ hb = <<>> /\ hf = <<>> /\ wf = [r \in Reg |-> 0] /\ rf = <<>>
BatchOK(b) == /\ Len(b.phs) = Len(b.ps) /\ Len(b.decs) = Len(b.ps)
              /\ \A i \in 1 .. Len(b.ps) : LET x == Truth(b.g, bit[b.ps[i][1]], bit[b.ps[i][2]])
                                           IN b.decs[i] = x /\ NearBit(b.phs[i], x, BootLim(lv))
Bits(b) == [i \in 1 .. Len(b.ps) |-> Truth(b.g, bit[b.ps[i][1]], bit[b.ps[i][2]])]
(* everything that existed before reads as before *)
Stable(e, d) == /\ \A h \in 1 .. Len(hf) : e.hf[h] = hf[h]
                /\ \A h \in 1 .. Len(rf) : e.rf[h] = rf[h]
                /\ \A r \in Reg \ d : e.wf[r] = wf[r]
Keep(e) == hf' = e.hf /\ rf' = e.rf /\ wf' = e.wf
Step(e) ==
  CASE e.ev = "reset" -> bit' = [r \in Reg |-> FALSE] /\ hb' = <<>> /\ hf' = <<>> /\ rf' = <<>> /\ wf' = [r \in Reg |-> 0]
    [] e.ev = "enc" -> e.dec = e.b /\ bit' = [bit EXCEPT ![e.d] = e.b] /\ Holds(Stable(e, {e.d})) /\ Keep(e) /\ UNCHANGED hb
    [] e.ev = "use" -> e.dec = hb[e.h][e.j] /\ bit' = [bit EXCEPT ![e.d] = hb[e.h][e.j]] /\ Holds(Stable(e, {e.d})) /\ Keep(e) /\ UNCHANGED hb
    [] e.ev = "batch" -> /\ Holds(\A i \in 1 .. Len(e.bs) : BatchOK(e.bs[i]))
                         /\ hb' = hb \o [i \in 1 .. Len(e.bs) |-> Bits(e.bs[i])]
                         /\ Holds(Stable(e, {})) /\ Keep(e) /\ UNCHANGED bit
                         /\ Len(e.hf) = Len(hf) + Len(e.bs)
    \* rotations: the constant coefficient carries the gate's bit
    [] e.ev = "rot" -> /\ Holds(\A i \in 1 .. Len(e.bs) : BatchOK(e.bs[i]))
                       /\ Holds(Stable(e, {})) /\ Keep(e) /\ UNCHANGED << bit, hb >>
                       /\ Len(e.rf) = Len(rf) + Len(e.bs)
    [] OTHER -> FALSE
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ lv' = IF Trace[l].ev = "reset" THEN Trace[l].level ELSE lv
         /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
