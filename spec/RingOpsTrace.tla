---------------------------- MODULE RingOpsTrace ----------------------------
(* Judges recorded ring ciphertext operations by the phases of their operands
   and results (units of 2^-16 of the torus unless given as limb pairs).
   Exponents of blind rotations are recomputed from the recorded small
   ciphertext; digits are recombined in 32-bit limb arithmetic.             *)
EXTENDS TraceLib, Torus, SequencesExt
VARIABLES l, c                  \* c: the reset event (level and keys) in force
tvars == << l, c >>
TInit == l = 1 /\ c = [ev |-> "none"]
U == 65536
Near16(x, y, e) == Dist(x, y, U) <= e
At(x, i) == << x[2 * i - 1], x[2 * i] >>
----------------------------------------------------------------------------
(* noise limits: at least eight standard deviations of the error that gadget
   rounding (noiseless keys) or rounding and key noise give                 *)
Classic == {"80", "110", "128"}
EpLim  == IF c.level = "U1" THEN (IF c.noisy THEN 200 ELSE 6)
          ELSE IF c.level \in Classic THEN (IF c.noisy THEN 34 ELSE 16)
          ELSE IF c.level = "U2" THEN 12 ELSE 4
CmuxLim == IF c.level = "U1" THEN (IF c.noisy THEN 220 ELSE 10)
           ELSE IF c.level \in Classic THEN (IF c.noisy THEN 52 ELSE 40)
           ELSE IF c.level = "U2" THEN 26 ELSE 10
BrLim  == CASE c.level = "U1" -> IF c.noisy THEN 5500 ELSE 80
            [] c.level = "80" -> IF c.noisy THEN 750 ELSE 280
            [] c.level = "110" -> IF c.noisy THEN 680 ELSE 280
            [] c.level = "128" -> IF c.noisy THEN 520 ELSE 280
            [] c.level = "U2" -> 180
            [] c.level = "U3" -> 20
            [] OTHER -> 42
----------------------------------------------------------------------------
\* extraction: negated mask elements may be off by one unit each
Ext(e) == /\ e.same /\ e.lens = 1 /\ e.len = (IF e.var = "index2" THEN c.n + 1 ELSE c.N + 1)
          /\ Len(e.out) = 2 * c.N /\ Len(e.ph) = 2 * c.N
          /\ \A k \in 1 .. c.N : TNear(At(e.out, k), At(e.ph, k), c.N)
\* gadget digits
Half == TPow(c.L * c.bgbit + 1)
Digs(e, j) == [i \in 1 .. c.L |-> e.d[i][j]]
Recomb(e, j) == FoldLeft(TAdd, TZero, [i \in 1 .. c.L |-> TMul(TInt(e.d[i][j]), TPow(i * c.bgbit))])
Within(x, y, h) == LET d == TSub(x, y)     \* |x - y| <= h as torus elements, h below a quarter turn
                   IN d = TZero \/ (IF d[1] < 32768 THEN TLe(d, h) ELSE TLe(TNeg(d), h))
Dec(e) == /\ Len(e.d) = c.L /\ \A i \in 1 .. c.L : Len(e.d[i]) = c.N
          /\ \A i \in 1 .. c.L : \A j \in 1 .. c.N : e.d[i][j] >= -(2 ^ (c.bgbit - 1)) /\ e.d[i][j] <= 2 ^ (c.bgbit - 1)
          /\ \A j \in 1 .. c.N : Within(Recomb(e, j), At(e.x, j), Half)
\* encrypted vectors of bits
RBool(e) == /\ e.dec = e.bits /\ Len(e.out) = c.N
            /\ \A j \in 1 .. c.N : Near16(e.out[j], IF e.bits[j] = 1 THEN 8192 ELSE -8192, 2)
Ep(e) == /\ e.same /\ Len(e.out) = c.N
         /\ \A j \in 1 .. c.N : Near16(e.out[j], e.p * e.ph[j], (EpLim * Max2(1, Abs(e.p))) + 2)
Cmux(e) == Len(e.out) = c.N /\ LET want == IF e.c = 1 THEN e.y ELSE e.x IN \A j \in 1 .. c.N : Near16(e.out[j], want[j], CmuxLim)
Cell(x) == TShr(TAdd(x, TPow(c.nbit + 2)), 31 - c.nbit)
Turn(e) == (FoldLeft(LAMBDA acc, i : IF c.s0[i] = 1 THEN acc + Cell(At(e.a, i)) ELSE acc, 0, [i \in 1 .. c.n |-> i]) - Cell(e.b)) % (2 * c.N)
Br(e) == LET r == Turn(e)
             m == r % c.N
         IN /\ Len(e.out) = c.N
            /\ \A k \in 0 .. c.N - 1 : LET src == IF k >= m THEN k - m ELSE k - m + c.N
                                       IN Near16(e.out[k + 1], IF (k >= m) = (r >= c.N) THEN -e.tv[src + 1] ELSE e.tv[src + 1], BrLim)
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> c' = e
       [] e.ev = "ext"   -> Holds(Ext(e)) /\ UNCHANGED c
       [] e.ev = "dec"   -> Holds(Dec(e)) /\ UNCHANGED c
       [] e.ev = "fft"   -> Holds(e.x = e.y) /\ UNCHANGED c
       [] e.ev = "rbool" -> Holds(RBool(e)) /\ UNCHANGED c
       [] e.ev = "ep"    -> Holds(Ep(e)) /\ UNCHANGED c
       [] e.ev = "cmux"  -> Holds(Cmux(e)) /\ UNCHANGED c
       [] e.ev = "br"    -> Holds(Br(e)) /\ UNCHANGED c
       [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
