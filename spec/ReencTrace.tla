---------------------------- MODULE ReencTrace -----------------------------
(* Judges recorded re-encryption histories.  Phases are exact 32-bit torus
   elements <<hi, lo>>.  Re-encrypting with a key from f to t must give, under
   t's key, the input's phase under f's key plus exactly the rounding errors
   of the mask digits, plus the noise of the key entries used.             *)
EXTENDS TraceLib, Gates, Levels, Params, SequencesExt
CONSTANTS Parties, Reg, Slots
VARIABLES l, lv, sk, ct, rk, wr, as
tvars == << l, lv, sk, ct, rk, wr, as >>
Free == [own |-> 0, bit |-> 0, ph |-> TZero]
NoKey == [f |-> 0, t |-> 0, bb |-> 1, tt |-> 1, sd |-> 0]
Wr0 == [n |-> 0, c |-> 0, o |-> [x \in 0 .. 7 |-> 0]]
As0 == [n |-> 0, sq |-> 0, s |-> 0]
TInit == /\ l = 1 /\ lv = "128" /\ sk = [p \in Parties |-> <<>>] /\ ct = [r \in Reg |-> Free] /\ rk = [x \in Slots |-> NoKey]
         /\ wr = Wr0 /\ as = As0
p == Par(lv)
Mu32(b) == IF b = 1 THEN TPow(3) ELSE TNeg(TPow(3))
Isq(x) == CHOOSE r \in 0 .. 300 : r * r <= x /\ (r + 1) * (r + 1) > x
Near(x, y, eps) == Abs(TDist(x, y)) <= eps
Dec(ph) == IF ph[1] < 32768 THEN 1 ELSE 0
(* nothing else moved: e.all lists the phases of the live registers under
   the keys of their owners (or any fixed key) as fingerprints             *)
Put(e, own, bit, ph) == ct' = [ct EXCEPT ![e.d] = [own |-> own, bit |-> bit, ph |-> ph]]
                        /\ e.len = p.n0 + 1
(* phases under a key that must not work are spread over the whole torus    *)
Wrong(ph, bit) == wr' = [n |-> wr.n + 1, c |-> wr.c + (IF Dec(ph) = bit THEN 1 ELSE 0), o |-> [wr.o EXCEPT ![ph[1] \div 8192] = @ + 1]]
SdOf(z) == IF z = "zero" THEN 0 ELSE p.sd0
PkSd(z, size) == SdOf(z) * (1 + Isq(1 + size \div 2))
RKey(e) == LET s == IF e.m = "sym" THEN SdOf(e.z) ELSE PkSd(e.z, e.size)
           IN /\ rk' = [rk EXCEPT ![e.x] = [f |-> e.f, t |-> e.t, bb |-> e.bb, tt |-> e.tt, sd |-> s]]
              /\ (e.def = 1 => e.bb = p.basebit /\ e.tt = p.t)
              /\ e.base = 2 ^ e.bb /\ e.levels = e.tt /\ e.count = e.base * e.tt * p.n0
              \* entry (i, j, k) encrypts k s_i / 2^(b (j+1))
              /\ Holds(\A x \in DOMAIN e.ent : LET y == e.ent[x]
                          IN Near(<< y[4], y[5] >>, TScaleS(TPow(e.bb * (y[2] + 1)), y[3] * sk[e.f][y[1] + 1]), 8 * s))
Low(x, u) == IF u <= 16 THEN x[2] % (2 ^ u) ELSE (x[1] % (2 ^ (u - 16))) * B16 + x[2]
Err(x, u) == ((Low(x, u) + 2 ^ (u - 1)) % (2 ^ u)) - 2 ^ (u - 1)
(* rounding errors may sum up to more than an integer holds: they are added
   as torus elements                                                       *)
ErrSum(a, s, u) == FoldLeft(LAMBDA acc, i : IF s[i] = 1 THEN TAdd(acc, TInt(Err(a[i], u))) ELSE acc, TZero, [i \in 1 .. Len(a) |-> i])
Re(e) == LET k == rk[e.x]
             u == 32 - k.bb * k.tt
             d == TSub(TSub(e.po, e.pi), ErrSum(e.a, sk[k.f], u))
         IN /\ k.f # 0 /\ ct[e.s].own # 0 /\ Len(e.a) = p.n0
            /\ IF k.sd = 0 THEN d = TZero ELSE Near(d, TZero, 8 * k.sd * (1 + Isq(p.n0 * k.tt)))
            /\ e.dec = Dec(e.po)
            /\ e.srcsame = 1 /\ e.keysame = 1
            /\ IF ct[e.s].own = k.f
               THEN Put(e, k.t, ct[e.s].bit, e.po) /\ (IF e.triv = 1 THEN UNCHANGED wr ELSE Wrong(e.pw, ct[e.s].bit))
               ELSE Put(e, 9, 0, e.po) /\ (IF e.triv = 1 THEN UNCHANGED wr ELSE Wrong(e.po, ct[e.s].bit))
Fine(r) == Near(ct[r].ph, Mu32(ct[r].bit), 134217728)
Gate(e) == /\ ct[e.a].own = e.p /\ ct[e.s].own = e.p
           /\ (Fine(e.a) /\ Fine(e.s)) =>
                /\ Near(e.ph, Mu32(IF Truth(e.g, ct[e.a].bit = 1, ct[e.s].bit = 1) THEN 1 ELSE 0), BootLim(lv) * B16)
                /\ e.dec = (IF Truth(e.g, ct[e.a].bit = 1, ct[e.s].bit = 1) THEN 1 ELSE 0)
           /\ Put(e, e.p, Dec(e.ph), e.ph)
(* Default public-key delegation: predicted spread in units of 2^-12.  One
   quarter of the variance is an offset that is fixed per key (every digit
   value selects its entry a quarter of the time), so the mean is free within
   4.5 of its own deviations and the rest must be three quarters.          *)
AsymStd == CASE lv = "80" -> 258 [] lv = "110" -> 193 [] lv = "128" -> 148 [] lv = "U1" -> 140 [] OTHER -> 0
Step(e) ==
  CASE e.ev = "reset" -> /\ ct' = [r \in Reg |-> Free] /\ rk' = [x \in Slots |-> NoKey] /\ lv' = e.level /\ UNCHANGED << wr, as, sk >>
    [] e.ev = "party" -> sk' = [sk EXCEPT ![e.p] = e.s] /\ Len(e.s) = p.n0 /\ UNCHANGED << lv, ct, rk, wr, as >>
    [] e.ev = "enc" -> Near(e.ph, Mu32(e.b), 8 * p.sd0) /\ Put(e, e.p, e.b, e.ph) /\ e.dec = e.b /\ UNCHANGED << lv, rk, wr, as, sk >>
    [] e.ev = "pkenc" -> /\ Near(e.ph, Mu32(e.b), 8 * PkSd(e.z, e.size) + 1) /\ Put(e, e.p, e.b, e.ph) /\ e.dec = e.b
                         /\ Wrong(e.pw, e.b) /\ UNCHANGED << lv, rk, as, sk >>
    \* the caller adds a half turn's half to a ciphertext, in place
    [] e.ev = "flip" -> LET c == ct[e.d] IN
                        /\ c.own \in Parties /\ e.ph = TAdd(c.ph, IF Dec(c.ph) = 1 THEN TNeg(TPow(2)) ELSE TPow(2))
                        /\ e.dec = Dec(e.ph) /\ Put(e, c.own, 1 - c.bit, e.ph) /\ UNCHANGED << lv, rk, wr, as, sk >>
    [] e.ev = "rkey" -> RKey(e) /\ UNCHANGED << lv, ct, wr, as, sk >>
    [] e.ev = "re" -> Re(e) /\ UNCHANGED << lv, rk, as, sk >>
    [] e.ev = "gate" -> Gate(e) /\ UNCHANGED << lv, rk, wr, as, sk >>
    [] e.ev = "ae" -> as' = [n |-> as.n + 1, sq |-> as.sq + (e.e * e.e), s |-> as.s + e.e] /\ UNCHANGED << lv, ct, rk, wr, sk >>
    [] e.ev = "aeend" -> /\ as.n >= 100
                         /\ LET m == as.s \div as.n
                                v == (as.sq \div as.n) - m * m
                            IN m * m <= 5 * AsymStd * AsymStd /\ v * 100 <= AsymStd * AsymStd * 110 /\ v * 100 >= AsymStd * AsymStd * 45
                         /\ as' = As0 /\ UNCHANGED << lv, ct, rk, wr, sk >>
    [] e.ev = "wrong" -> Near(e.ph, Mu32(e.b), 8 * p.sd0) /\ Wrong(e.pw, e.b) /\ UNCHANGED << lv, ct, rk, as, sk >>
    [] e.ev = "end" -> /\ wr.n >= 50
                       /\ (2 * wr.c - wr.n) * (2 * wr.c - wr.n) <= 49 * wr.n
                       /\ Holds(\A x \in 0 .. 7 : 8 * wr.o[x] <= wr.n + 25 * Isq(wr.n))
                       /\ wr' = Wr0 /\ UNCHANGED << lv, ct, rk, as, sk >>
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
