----------------------------- MODULE FreshTrace ----------------------------
(* Judges the statistics of masks, keys and noise gathered from the code.
   Bounds are six to eight standard deviations of the statistic.           *)
EXTENDS TraceLib, Params, Torus, FiniteSets, SequencesExt
VARIABLES l, lv, seen
tvars == << l, lv, seen >>
TInit == l = 1 /\ lv = "128" /\ seen = {}
p == Par(lv)
(* c heads in n fair coin tosses, k standard deviations *)
Fair(c, n, k) == LET d == Abs(2 * c - n) IN d <= 46000 /\ d * d <= k * k * n
Sum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
(* a histogram over 256 equally likely values: sum of the squared deviations
   is about n with standard deviation 0.088 n                              *)
Uniform(h, n) == /\ Len(h) = 256 /\ Sum(h) = n
                 /\ Holds(\A i \in 1 .. 256 : Abs(h[i] - n \div 256) <= 2000)
                 /\ Sum([i \in 1 .. 256 |-> (h[i] - n \div 256) * (h[i] - n \div 256)]) <= n + (7 * n) \div 10 + 256
Masks(e) == /\ e.n > 0 /\ e.distinct = e.n
            /\ Holds(\A b \in 1 .. 32 : Fair(e.bits[b], e.elems, 7))
            /\ Uniform(e.hi, e.elems) /\ Uniform(e.lo, e.elems)
            /\ Fair(e.ser, e.sern, 7) /\ Fair(e.cross, e.crn, 7) /\ e.eq <= 2
            /\ Len(e.pos0) = Len(e.pos1) /\ Len(e.pos0) \in {p.n0, 2 ^ p.nbit}
            /\ Holds(\A i \in DOMAIN e.pos0 : Fair(e.pos0[i], e.reps, 8) /\ Fair(e.pos1[i], e.reps, 8))
Keys(e) == /\ e.n0 = p.n0 /\ e.n1 = 2 ^ p.nbit /\ e.binary = 1 /\ e.distinct = 2 * e.k
           /\ Holds(\A i \in DOMAIN e.p0 : Fair(e.p0[i], e.k, 8)) /\ Holds(\A i \in DOMAIN e.p1 : Fair(e.p1[i], e.k, 8))
           /\ Fair(e.ones0, e.k * e.n0, 7) /\ Fair(e.ones1, e.k * e.n1, 7)
           /\ Fair(e.ser0, e.k * (e.n0 - 1), 7) /\ Fair(e.ser1, e.k * (e.n1 - 1), 7)
           /\ Fair(e.cross0, (e.k - 1) * e.n0, 7) /\ Fair(e.cross1, (e.k - 1) * e.n1, 7) /\ Fair(e.agree, e.k * e.m, 7)
(* most and least agreement of two different positions of the same key pair,
   and of one key pair and the next, over e.m0 (e.m1) key pairs             *)
Kin(e) == /\ e.m0 >= 190 /\ e.m1 = e.m0 - 1
          /\ Fair(e.r[1], e.m0, 9) /\ Fair(e.r[2], e.m0, 9) /\ Fair(e.r[3], e.m1, 9) /\ Fair(e.r[4], e.m1, 9)
(* the deviation that was asked for is the level's published one *)
Asked(e) == CASE e.kind \in {"lwe0 bool", "lwe0 message", "lwe0 real", "public key", "re-encryption key", "key switching key"} -> Abs(e.sd - p.sd0) <= 1
              [] e.kind \in {"lwe1 bool", "lwe1 real", "ring level", "bootstrapping key"} -> e.sd <= p.sd1 /\ e.sd >= p.sd1 - 1
              [] OTHER -> TRUE
Unit == 1048576       \* 64 * 64 * 256: the requested variance
Noise(e) ==
  /\ e.n > 0 /\ Asked(e)
  /\ IF e.sd < 60 THEN e.max <= 10 * e.sd + 4
     ELSE LET r == e.rt
              \* noise is truncated to a torus element: up to one unit smaller
              tr == (2 * Unit) \div e.sd
          IN /\ Abs(e.mean) <= (64 * 256 * 6) \div r + (64 * 256) \div e.sd + 1
             /\ Abs(e.msq - Unit) <= (9 * Unit) \div r + tr + 256
             /\ Abs(e.corr) <= (6 * Unit) \div r + 256
             /\ Abs(e.t1 - 317311) <= 2800000 \div r + 1000000 \div e.sd
             /\ Abs(e.t2 - 45500) <= 1250000 \div r + 400000 \div e.sd
             /\ e.c4 <= 12 + (3 * e.n) \div 10000
             \* every coefficient of a ring ciphertext has its noise
             /\ Holds(\A i \in DOMAIN e.comp : Abs(e.comp[i] - 4096) <= (12 * 4096) \div e.rr + 8192 \div e.sd)
Step(e) ==
  CASE e.ev = "reset" -> lv' = e.level /\ UNCHANGED seen
    [] e.ev = "masks" -> Masks(e) /\ UNCHANGED << lv, seen >>
    [] e.ev = "keys" -> Keys(e) /\ UNCHANGED << lv, seen >>
    [] e.ev = "kin" -> Kin(e) /\ UNCHANGED << lv, seen >>
    [] e.ev = "noise" -> Noise(e) /\ UNCHANGED << lv, seen >>
    [] e.ev = "many" -> e.n > 0 /\ e.distinct = e.n /\ UNCHANGED << lv, seen >>
    \* nothing is repeated in another process either
    [] e.ev = "fp" -> LET S == { e.fp[i] : i \in DOMAIN e.fp }
                      IN S \cap seen = {} /\ seen' = seen \cup S /\ UNCHANGED lv
    [] e.ev = "end" -> UNCHANGED << lv, seen >>
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
