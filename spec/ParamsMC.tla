------------------------------ MODULE ParamsMC ------------------------------
(* The parameter selection as a state machine (any level may be selected at
   any time, known or not; every accessor is a function of the selected level
   alone), the consistency of each published profile and the noise margins
   that follow from it.  Standard deviations are handled as base-2 logarithms
   in hundredths of a bit, rounded up.                                      *)
EXTENDS Params, Sequences, FiniteSets
CONSTANTS Slip, Unknown
VARIABLES cur, memo, ret, acc
vars == << cur, memo, ret, acc >>
Levels == LevelNames \cup Unknown
Eff(lv) == IF lv \in LevelNames THEN lv ELSE "128"
Tab(lv) == IF Slip = "noisy" /\ lv = "U4" THEN [Par(lv) EXCEPT !.t = 2]
           ELSE IF Slip = "digits" /\ lv = "128" THEN [Par(lv) EXCEPT !.bgbit = 12] ELSE Par(lv)
Blocks(p) == IF p.blk <= 1 THEN p.n0 ELSE IF Slip = "floor" THEN p.n0 \div p.blk ELSE (p.n0 + p.blk - 1) \div p.blk
Accessors == {"lwe0", "lwe1", "rlwe", "rgsw", "ksk", "bsk", "info", "blocks", "useblk"}
View(a, p) ==
  CASE a = "lwe0" -> << p.n0, p.a0 >>
    [] a = "lwe1" -> << p.n1, p.a1 >>
    [] a = "rlwe" -> << p.n1, p.a1 >>
    [] a = "rgsw" -> << p.n1, p.nbit, p.bgbit, 2 ^ p.bgbit, p.l, p.basebit, p.t, p.a1, p.blk >>
    [] a = "ksk"  -> << p.a0 >>
    [] a = "bsk"  -> << p.a1 >>
    [] a = "info" -> << p.m >>
    [] a = "blocks" -> << Blocks(p) >>
    [] a = "useblk" -> << p.blk > 1 >>
Init == cur = "128" /\ memo = "128" /\ ret = << >> /\ acc = ""
Select(lv) == cur' = lv /\ UNCHANGED memo /\ ret' = << >> /\ acc' = ""
\* a slip: a profile remembered from the first use of one accessor
Read(a) == /\ acc' = a /\ UNCHANGED cur
           /\ memo' = (IF a = "rgsw" THEN Eff(cur) ELSE memo)
           /\ ret' = View(a, Tab(IF Slip = "stale" /\ a = "bsk" THEN memo ELSE Eff(cur)))
Next == (\E lv \in Levels : Select(lv)) \/ (\E a \in Accessors : Read(a))
Spec == Init /\ [][Next]_vars
Faithful == acc # "" => ret = View(acc, Tab(Eff(cur)))
----------------------------------------------------------------------------
(* consistency of a profile *)
Consistent(p) ==
  /\ p.n1 = 2 ^ p.nbit
  /\ p.l >= 1 /\ p.t >= 1
  /\ p.bgbit * p.l <= 32 /\ p.basebit * p.t <= 32
  /\ p.n0 < p.n1 \/ p.m = 4                      \* U2 trades ring degree for ring rank
  /\ p.blk >= 1 /\ Blocks(p) * p.blk >= p.n0 /\ (Blocks(p) - 1) * p.blk < p.n0
  /\ 2 * p.m <= p.n1                              \* every message gets a table cell
  /\ p.la1 < p.la0                                \* the larger dimension carries less noise
ConsistentAll == \A lv \in LevelNames : Consistent(Tab(lv))
----------------------------------------------------------------------------
(* noise: 100 log2 of standard deviations *)
RECURSIVE Fl2(_)
Fl2(x) == IF x < 2 THEN 0 ELSE 1 + Fl2(x \div 2)
\* log2(1 + f) <= f + 0.0861
LogUp(x) == LET k == Fl2(x) IN 100 * k + (100 * (x - 2 ^ k) + 2 ^ k - 1) \div (2 ^ k) + (IF x = 2 ^ k THEN 0 ELSE 9)
Half(x) == (x + 1) \div 2
Log2of(m) == LogUp(m)
Part(gap) == IF gap < 100 THEN 64 ELSE IF gap < 200 THEN 16 ELSE IF gap < 300 THEN 4 ELSE 1
MaxOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x
RECURSIVE SumOf(_)
SumOf(s) == IF s = << >> THEN 0 ELSE s[1] + SumOf(Tail(s))
\* deviation of a sum of independent errors
Join(s) == LET mx == MaxOf(s)
               parts == [i \in DOMAIN s |-> Part(mx - s[i])]
           IN mx + Half(LogUp(SumOf(parts))) - 300
Rotation(p)  == Half(LogUp(p.n0 * 2 * p.l * p.n1)) + p.la1 + 100 * p.bgbit - 179
Rounding(p)  == Half(LogUp((p.n0 * p.n1) \div 2)) - 100 * (p.l * p.bgbit) - 179
Switching(p) == Half(LogUp(p.n1 * p.t)) + p.la0
SwRound(p)   == Half(LogUp(p.n1)) - 50 - 100 * (p.basebit * p.t) - 179
\* a freshly bootstrapped ciphertext
Out(p) == Join(<< Rotation(p), Rounding(p), Switching(p), SwRound(p) >>)
\* modulus switching on the way into a bootstrap; ext: published table extension factor
Ext(p) == CASE p.m = 64 -> 2 [] p.m = 128 -> 4 [] p.m = 256 -> 8 [] OTHER -> 1
Entry(p) == Half(LogUp(p.n0)) - 229 - 100 * (p.nbit + 1) - 100 * Fl2(Ext(p))
(* message decision: the boundary is 1/(4m) away *)
Margin(p) == -200 - 100 * Fl2(p.m)
FreshMargin == \A lv \in LevelNames : LET p == Tab(lv) IN p.la0 + 300 <= Margin(p)
OutMargin   == \A lv \in LevelNames : LET p == Tab(lv) IN Out(p) + 300 <= Margin(p)
EntryMargin == \A lv \in LevelNames : LET p == Tab(lv) IN Join(<< Out(p), Entry(p) >>) + 200 <= Margin(p)
\* gates on two bootstrapped inputs at the levels with a binary message space: 6 deviations below 1/8
GateMargin  == \A lv \in LevelNames : LET p == Tab(lv) IN p.m = 2 => Join(<< Out(p) + 50, Entry(p) >>) + 259 <= -300
\* XOR adds one operand twice: four deviations at every binary level, six at those meant for gates
XorMargin == \A lv \in LevelNames : LET p == Tab(lv) IN p.m = 2 => Join(<< Out(p) + 117, Entry(p) >>) + (IF lv = "U1" THEN 200 ELSE 259) <= -300
=============================================================================
