----------------------------- MODULE RingTrace ------------------------------
(* Judges recorded evaluator histories.  After every operation the driver
   reads all registers and all handles (phase in 2^-16 and fingerprint);
   handles that the ring has overtaken are ignored.                         *)
EXTENDS TraceLib, Torus, Levels
CONSTANTS Reg, Life
VARIABLES l, lv, reg, hs, m
tvars == << l, lv, reg, hs, m >>
Nil == [set |-> FALSE, msg |-> 0, fp |-> 0]
TInit == l = 1 /\ lv = "128" /\ reg = [r \in Reg |-> Nil] /\ hs = <<>> /\ m = 4
Enc(x) == THalfFrac(x, m)[1]
Aged(e) == [i \in 1 .. Len(hs) |-> IF hs[i].ev # e THEN hs[i]
              ELSE [hs[i] EXCEPT !.age = @ + 1, !.live = hs[i].live /\ hs[i].age + 1 < Life]]
SrcOK(s) == IF s <= 10 THEN reg[s].set ELSE hs[s - 10].live
MsgOf(s) == IF s <= 10 THEN reg[s].msg ELSE hs[s - 10].msg
Good(p, x) == Dist(p, Enc(x), B16) <= BootLim(lv) + 1
(* all values that must still be there, given registers R and handles H *)
StableR(e, R, d) == \A r \in Reg \ {d} : R[r].set => e.rf[r] = R[r].fp
StableH(e, H, d) == \A i \in 1 .. Len(H) : H[i].live /\ 10 + i # d => e.hf[i] = H[i].fp
WithR(e, d, x) == [reg EXCEPT ![d] = [set |-> TRUE, msg |-> x, fp |-> e.rf[d]]]
Out(e) == e.ys[MsgOf(e.s) + 1] % m
Step(e) ==
  CASE e.ev = "reset" -> reg' = [r \in Reg |-> Nil] /\ hs' = <<>>
    [] e.ev = "enc" -> /\ reg' = WithR(e, e.d, e.x) /\ hs' = hs
                       /\ Dist(e.ph, Enc(e.x), B16) <= 8192 \div m
                       /\ Holds(StableR(e, reg, e.d)) /\ Holds(StableH(e, hs, 0))
    [] e.ev = "junk" -> reg' = [reg EXCEPT ![e.d] = Nil] /\ hs' = hs /\ Holds(StableR(e, reg, e.d)) /\ Holds(StableH(e, hs, 0))
    [] e.ev = "ring" -> /\ SrcOK(e.s) /\ Good(e.ph, Out(e)) /\ e.dec = Out(e)
                        /\ hs' = Append(Aged(e.e), [ev |-> e.e, age |-> 0, live |-> TRUE, msg |-> Out(e), fp |-> e.hf[Len(hs) + 1]])
                        /\ reg' = reg
                        /\ Holds(StableR(e, reg, 0)) /\ Holds(StableH(e, Aged(e.e), 0))
    [] e.ev = "copy" -> /\ SrcOK(e.s) /\ Good(e.ph, Out(e)) /\ e.dec = Out(e)
                        /\ reg' = WithR(e, e.d, Out(e)) /\ hs' = Aged(e.e)
                        /\ Holds(StableR(e, reg, e.d)) /\ Holds(StableH(e, Aged(e.e), 0))
    [] e.ev = "assign" -> /\ SrcOK(e.s) /\ Good(e.ph, Out(e)) /\ e.dec = Out(e)
                          /\ IF e.d <= 10 THEN reg' = WithR(e, e.d, Out(e)) /\ hs' = hs
                             ELSE /\ hs[e.d - 10].live /\ reg' = reg
                                  /\ hs' = [hs EXCEPT ![e.d - 10] = [@ EXCEPT !.msg = Out(e), !.fp = e.hf[e.d - 10]]]
                          /\ Holds(StableR(e, reg, e.d)) /\ Holds(StableH(e, hs, e.d))
    [] e.ev = "resetbuf" -> /\ reg' = reg /\ hs' = [i \in 1 .. Len(hs) |-> IF hs[i].ev = e.e THEN [hs[i] EXCEPT !.live = FALSE] ELSE hs[i]]
                            /\ Holds(StableR(e, reg, 0)) /\ Holds(StableH(e, hs', 0))
    [] OTHER -> FALSE
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ lv' = IF Trace[l].ev = "reset" THEN Trace[l].level ELSE lv
         /\ m' = IF Trace[l].ev = "reset" THEN Trace[l].m ELSE m
         /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
