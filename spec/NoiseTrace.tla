------------------------------ MODULE NoiseTrace -----------------------------
(* Follows recorded circuits, computes the error of every bootstrapped
   ciphertext against the specified value and accumulates its statistics, by
   way of bootstrapping and by depth.  Errors are counted in 32nds of the
   level's output standard deviation (Sigma).                               *)
EXTENDS TraceLib, Torus
VARIABLES l, lv, m, val, dep, key, st, nk, ks
vars == << l, lv, m, val, dep, key, st, nk, ks >>
\* module Gates for the truth tables
G == INSTANCE Gates WITH M <- 65536
Reg == 1 .. 4
\* standard deviation of a bootstrapped ciphertext, in units of 2^-32
Sigma(x) == CASE x = "80" -> 16000000 [] x = "110" -> 10800000 [] x = "128" -> 7800000 [] x = "U1" -> 46000000
              [] x = "U2" -> 5800000 [] x = "U3" -> 7200000 [] x = "U4" -> 1500000 [] x = "U5" -> 270000
Unit == Sigma(lv) \div 32
Enc(v) == IF m = 0 THEN (IF v = 1 THEN TPow(3) ELSE TNeg(TPow(3))) ELSE THalfFrac(v, m)
B(v) == v = 1
I(b) == IF b THEN 1 ELSE 0
Max(x, y) == IF x > y THEN x ELSE y
Classes == {"gate", "batch", "mux", "eval", "boot"}
Deeps == {1, 2, 3}
Zero == [n |-> 0, s |-> 0, q |-> 0]
Clear == [b \in Classes \X Deeps |-> Zero]
DC(d) == IF d <= 1 THEN 1 ELSE IF d <= 4 THEN 2 ELSE 3
Z(ph, v) == TDist(ph, Enc(v)) \div Unit
Plus(x, z) == [n |-> x.n + 1, s |-> x.s + z, q |-> x.q + z * z]
\* no single error beyond ten deviations
Sane(z) == Abs(z) <= 320
At(v, i) == << v[2 * i - 1], v[2 * i] >>
TInit == l = 1 /\ lv = "128" /\ m = 0 /\ val = [r \in Reg |-> 0] /\ dep = [r \in Reg |-> 0] /\ key = Zero /\ st = Clear /\ nk = 0 /\ ks = Zero
One(e, cls, v, d) ==
  LET z == TLCEval(Z(<< e.ph[1], e.ph[2] >>, v)) IN
  /\ Sane(z)
  /\ val' = [val EXCEPT ![e.d] = v] /\ dep' = [dep EXCEPT ![e.d] = d]
  /\ st' = TLCEval([st EXCEPT ![<< cls, DC(d) >>] = Plus(@, z)])
  /\ key' = TLCEval(Plus(key, z)) /\ UNCHANGED << lv, m, nk, ks >>
Bit2(e) == I(G!Truth(e.g, B(val[e.a]), B(val[e.b])))
GateE(e) == One(e, e.op, Bit2(e), 1 + Max(dep[e.a], dep[e.b]))
MuxE(e) == One(e, "mux", I(G!TruthMux(B(val[e.a]), B(val[e.b]), B(val[e.c]))), 1 + Max(dep[e.a], Max(dep[e.b], dep[e.c])))
BootE(e) == One(e, "boot", e.ys[val[e.s] + 1] % m, 1 + dep[e.s])
RECURSIVE PlusAll(_, _, _)
PlusAll(x, zs, i) == IF i > Len(zs) THEN x ELSE PlusAll(Plus(x, zs[i]), zs, i + 1)
BatchE(e) ==
  LET k == Len(e.as)
      vs == TLCEval([i \in 1 .. k |-> I(G!Truth(e.g, B(val[e.as[i]]), B(val[e.bs[i]])))])
      ds == TLCEval([i \in 1 .. k |-> 1 + Max(dep[e.as[i]], dep[e.bs[i]])])
      zs == TLCEval([i \in 1 .. k |-> Z(At(e.ph, i), vs[i])])
  IN /\ Len(e.ph) = 2 * k /\ Holds(\A i \in 1 .. k : Sane(zs[i]))
     /\ val' = TLCEval([r \in Reg |-> IF r <= k THEN vs[r] ELSE val[r]]) /\ dep' = TLCEval([r \in Reg |-> IF r <= k THEN ds[r] ELSE dep[r]])
     /\ st' = TLCEval([st EXCEPT ![<< "batch", DC(ds[1]) >>] = PlusAll(@, zs, 1)])
     /\ key' = TLCEval(PlusAll(key, zs, 1)) /\ UNCHANGED << lv, m, nk, ks >>
\* inputs carry the error they were given
LoadE(e) == val' = [val EXCEPT ![e.d] = e.x] /\ dep' = [dep EXCEPT ![e.d] = 0] /\ UNCHANGED << lv, m, key, st, nk, ks >>
----------------------------------------------------------------------------
RECURSIVE Root(_, _)
Root(n, r) == IF r * r > n THEN Root(n, (r + n \div r) \div 2) ELSE r
Isqrt(n) == IF n = 0 THEN 0 ELSE Root(n, n)
\* sum of squares around the mean (s and q count 32nds of Sigma)
Central(x) == LET mu == (8 * x.s) \div x.n IN x.q - ((((x.n * mu) \div 8) * mu) \div 8)
Allow(n) == n + 9 * Isqrt(n)          \* six standard errors of a sample variance
\* bias: every key has an offset of its own, a sum of key switching errors whose
\* standard deviation is half of Sigma; five and a half of those per key
KeyBias(x) == x.n >= 40 => Abs(x.s) <= x.n * 88 + 192 * Isqrt(x.n)
KeySpread(x) == x.n >= 40 => Central(x) <= Allow(x.n) * 1024
\* over all keys: the offsets average out, the spread within keys is that of the level
PoolBias == (nk >= 2 /\ ks.n >= 60) => Abs(ks.s) <= (ks.n * 88) \div Isqrt(nk) + 192 * Isqrt(ks.n)
PoolSpread == ks.n >= 60 => ks.q <= Allow(ks.n) * 1024
\* one way of bootstrapping at one depth, offsets of the keys included
ClassSpread(x) == x.n >= 60 => x.q <= Allow(x.n) * 1536
EndKey(e) == /\ KeyBias(key) /\ KeySpread(key)
             /\ nk' = nk + 1 /\ ks' = [n |-> ks.n + key.n, s |-> ks.s + key.s, q |-> ks.q + (IF key.n = 0 THEN 0 ELSE Central(key))] /\ key' = Zero
             /\ UNCHANGED << lv, m, val, dep, st >>
End(e) == /\ Holds(\A b \in Classes \X Deeps : ClassSpread(st[b])) /\ PoolBias /\ PoolSpread
          /\ UNCHANGED << lv, m, val, dep, key, st, nk, ks >>
Start(e) == lv' = e.level /\ m' = e.m /\ val' = [r \in Reg |-> 0] /\ dep' = [r \in Reg |-> 0] /\ UNCHANGED << key, st, nk, ks >>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.ev = "start" -> Start(e)
              [] e.ev = "load" -> LoadE(e)
              [] e.ev = "op" /\ e.op \in {"gate", "eval"} -> GateE(e)
              [] e.ev = "op" /\ e.op = "mux" -> MuxE(e)
              [] e.ev = "op" /\ e.op = "batch" -> BatchE(e)
              [] e.ev = "op" /\ e.op = "boot" -> BootE(e)
              [] e.ev = "endkey" -> EndKey(e)
              [] e.ev = "end" -> End(e)
              [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
