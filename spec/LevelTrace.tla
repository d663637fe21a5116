---------------------------- MODULE LevelTrace -----------------------------
(* Judges histories over several security levels.  Registers are numbered as
   in LevelGen; every live register of every level is read again after every
   operation.  What an operation must give depends on the level selected now
   and on its operands only.                                               *)
EXTENDS TraceLib, Gates, Levels, Params
VARIABLES l, lv, names, val
tvars == << l, lv, names, val >>
Free == [k |-> "none", v |-> 0, ph |-> 0]
Ids == 1 .. 99
TInit == l = 1 /\ lv = "128" /\ names = <<>> /\ val = [r \in Ids |-> Free]
Msg == Par(lv).m
B2(v) == v = 1
N01(b) == IF b THEN 1 ELSE 0
(* the phase of the register just written *)
New(e) == e.phs[CHOOSE x \in DOMAIN e.ids : e.ids[x] = e.d]
Others(e) == /\ {e.ids[x] : x \in DOMAIN e.ids} = {r \in Ids : val'[r].k \in {"bit", "msg"}}
             /\ Holds(\A x \in DOMAIN e.ids : e.ids[x] # e.d => e.phs[x] = val[e.ids[x]].ph)
Here(r) == names[r \div 10] = lv                 \* register of the current level
PutBit(e, b, lim) == /\ Here(e.d) /\ NearBit(New(e), b, lim) /\ e.dec = N01(b) /\ e.len = Par(lv).n0 + 1
                     /\ val' = [val EXCEPT ![e.d] = [k |-> "bit", v |-> N01(b), ph |-> New(e)]] /\ Others(e)
PutMsg(e, x, lim) == /\ Here(e.d) /\ Dist(New(e), THalfFrac(x, Msg)[1], B16) <= lim /\ e.dec = x /\ e.len = Par(lv).n0 + 1
                     /\ val' = [val EXCEPT ![e.d] = [k |-> "msg", v |-> x, ph |-> New(e)]] /\ Others(e)
BV(r) == B2(val[r].v)
Out2(g, a, b) == Truth(g, BV(a), BV(b))
Lim == BootLim(lv) + 1
Step(e) ==
  CASE e.ev = "reset" -> val' = [r \in Ids |-> Free] /\ names' = e.names /\ lv' = e.names[1]
    [] e.ev = "switch" -> lv' = names[e.x] /\ UNCHANGED << val, names >> /\ Others(e)
    [] e.ev = "rekey" -> /\ val' = [r \in Ids |-> IF names[1 + ((r \div 10 + Len(names) - 1) % Len(names))] = lv /\ val[r].k # "tab" /\ r > 9 THEN Free ELSE val[r]]
                         /\ Others(e) /\ UNCHANGED << lv, names >>
    [] e.ev = "enc" -> PutBit(e, B2(e.b), 2048) /\ UNCHANGED << lv, names >>
    [] e.ev = "const" -> PutBit(e, B2(e.b), 1) /\ UNCHANGED << lv, names >>
    [] e.ev = "not" -> PutBit(e, ~BV(e.s[1]), 4096) /\ New(e) = (B16 - val[e.s[1]].ph) % B16 /\ UNCHANGED << lv, names >>
    [] e.ev = "copy" -> PutBit(e, BV(e.s[1]), 4096) /\ New(e) = val[e.s[1]].ph /\ UNCHANGED << lv, names >>
    [] e.ev = "gate" -> PutBit(e, Out2(e.g, e.s[1], e.s[2]), Lim) /\ UNCHANGED << lv, names >>
    [] e.ev = "mux" -> PutBit(e, TruthMux(BV(e.s[1]), BV(e.s[2]), BV(e.s[3])), Lim) /\ UNCHANGED << lv, names >>
    [] e.ev = "batch" -> /\ Len(e.bph) = Len(e.ps)
                         /\ Holds(\A i \in DOMAIN e.ps : NearBit(e.bph[i], Out2(e.g, e.ps[i][1], e.ps[i][2]), Lim))
                         /\ PutBit(e, Out2(e.g, e.ps[1][1], e.ps[1][2]), Lim) /\ UNCHANGED << lv, names >>
    [] e.ev = "menc" -> PutMsg(e, e.xv % Msg, 8192 \div Msg) /\ UNCHANGED << lv, names >>
    [] e.ev = "pbs" -> PutMsg(e, e.ys[val[e.s[1]].v + 1] % Msg, Lim) /\ UNCHANGED << lv, names >>
    [] e.ev = "mk" -> Here(e.d) /\ val' = [val EXCEPT ![e.d] = [k |-> "tab", v |-> e.ys, ph |-> 0]] /\ Others(e) /\ UNCHANGED << lv, names >>
    [] e.ev = "lut" -> PutMsg(e, val[e.s[2]].v[val[e.s[1]].v + 1] % Msg, Lim) /\ UNCHANGED << lv, names >>
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
