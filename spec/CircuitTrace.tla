--------------------------- MODULE CircuitTrace ----------------------------
(* Judges recorded runs of the gate API against Circuit.  Phases are logged
   in units of 2^-16.                                                      *)
EXTENDS Circuit, TraceLib, Levels
VARIABLES l, lv

TInit == Init /\ l = 1 /\ lv = "128"

DecOK(e) == e.dec = DecB(e.ph)
Step(e) ==
  CASE e.ev = "reset" -> ph' = [r \in Reg |-> None] /\ bit' = [r \in Reg |-> FALSE]
    [] e.ev = "enc"   -> Enc(e.d, e.b, e.ph) /\ DecOK(e)
    [] e.ev = "const" -> Const(e.d, e.b, e.ph) /\ DecOK(e)
    [] e.ev = "not"   -> Not(e.d, e.s[1], e.ph) /\ DecOK(e)
    [] e.ev = "copy"  -> Copy(e.d, e.s[1], e.ph) /\ DecOK(e)
    [] e.ev = "gate"  -> Gate(e.op, e.d, e.s[1], e.s[2], e.ph) /\ DecOK(e)
    [] e.ev = "mux"   -> /\ \A i \in 1..3 : Set(e.s[i])
                         /\ NearBit(e.ph, TruthMux(bit[e.s[1]], bit[e.s[2]], bit[e.s[3]]), E)
                         /\ Put(e.d, e.ph, TruthMux(bit[e.s[1]], bit[e.s[2]], bit[e.s[3]]))
                         /\ DecOK(e)
    \* all wires read again: nothing may have moved
    [] e.ev = "check" -> /\ \A r \in Reg : Set(r) => e.phs[r] = ph[r] /\ e.decs[r] = bit[r]
                         /\ UNCHANGED vars
    [] OTHER -> FALSE
(* the result of a bootstrap is as clean as the level promises *)
Clean(e) == e.ev \in {"gate", "mux"} => NearBit(ph'[e.d], bit'[e.d], BootLim(lv))
(* the same operation under another pair of keys, right after: same value *)
Twin(e) ==
  /\ "ph2" \in DOMAIN e =>
       /\ e.dec2 = bit'[e.d] /\ e.dec2 = DecB(e.ph2)
       /\ NearBit(e.ph2, bit'[e.d], IF e.ev \in {"gate", "mux"} THEN BootLim(lv) ELSE E)
  /\ "decs2" \in DOMAIN e => \A r \in Reg : Set(r) => e.decs2[r] = bit[r]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ lv' = IF Trace[l].ev = "reset" THEN Trace[l].level ELSE lv
         /\ Step(Trace[l]) /\ Clean(Trace[l]) /\ Twin(Trace[l])
TSpec == TInit /\ [][TNext]_<< vars, l, lv >>
=============================================================================
