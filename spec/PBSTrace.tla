------------------------------ MODULE PBSTrace ------------------------------
(* Judges recorded programmable bootstraps.  Phases are in units of 2^-16;
   every register is read again after every operation.                      *)
EXTENDS TraceLib, Torus, Levels
CONSTANTS Reg, Tab
VARIABLES l, lv, ph, md, msg, tm, ty
tvars == << l, lv, ph, md, msg, tm, ty >>
None == -1
Clear == /\ ph' = [r \in Reg |-> None] /\ md' = [r \in Reg |-> 1] /\ msg' = [r \in Reg |-> 0]
         /\ tm' = [t \in Tab |-> 0] /\ ty' = [t \in Tab |-> <<>>]
TInit == /\ l = 1 /\ lv = "128" /\ ph = [r \in Reg |-> None] /\ md = [r \in Reg |-> 1] /\ msg = [r \in Reg |-> 0]
         /\ tm = [t \in Tab |-> 0] /\ ty = [t \in Tab |-> <<>>]
Enc(x, m) == THalfFrac(x % m, m)[1]
(* an encryption is a valid input within a quarter of the message distance *)
InLim(m) == 8192 \div m
Put(e, m, x, lim) ==
  /\ md' = [md EXCEPT ![e.d] = m] /\ msg' = [msg EXCEPT ![e.d] = x % m] /\ ph' = [ph EXCEPT ![e.d] = e.phs[e.d]]
  /\ Dist(e.phs[e.d], Enc(x, m), B16) <= lim + 1
  /\ e.dec = x % m
  \* no other register moved
  /\ Holds(\A r \in Reg \ {e.d} : ph[r] # None => e.phs[r] = ph[r])
  /\ UNCHANGED << tm, ty >>
Boot(e, ys, mo) == ph[e.s] # None /\ Len(ys) = md[e.s] /\ Put(e, mo, ys[msg[e.s] + 1], BootLim(lv))
Step(e) ==
  CASE e.ev = "reset" -> Clear
    [] e.ev = "enc" -> Put(e, e.m, e.x, InLim(e.m))
    [] e.ev = "mk" -> tm' = [tm EXCEPT ![e.t] = e.m] /\ ty' = [ty EXCEPT ![e.t] = e.ys] /\ Len(e.ys) = e.m /\ UNCHANGED << ph, md, msg >>
    [] e.ev = "func" -> Boot(e, e.ys, md[e.s])
    [] e.ev = "lut" -> tm[e.t] = md[e.s] /\ Boot(e, ty[e.t], md[e.s])
    [] e.ev = "full" -> Boot(e, e.ys, e.m)
    [] OTHER -> FALSE
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ lv' = IF Trace[l].ev = "reset" THEN Trace[l].level ELSE lv
         /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
