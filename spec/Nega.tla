-------------------------------- MODULE Nega --------------------------------
(* Polynomials modulo X^N + 1 over Z_Q, and their transforms, as a register
   machine.  A transform register holds the values of its polynomial at the
   odd powers of a primitive 2N-th root of unity W modulo Q (here Q is a
   prime, so that everything is exact and finite); ghost remembers the
   polynomial it must stand for.  Rotations move coefficients the way the
   implementation does (index arithmetic in three branches after reducing k
   with a truncating remainder); Law states what X^k means.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Q, W, C,       \* C: coefficients used for initial polynomials
          Slip              \* "none", or a deliberate mistake
ASSUME /\ (W ^ N) % Q = Q - 1
VARIABLES p, f, ghost       \* two polynomials, two transforms and their ghosts
vars == << p, f, ghost >>
Ix == 0 .. N - 1
RECURSIVE SumTo(_, _)
SumTo(g, k) == IF k < 0 THEN 0 ELSE g[k] + SumTo(g, k - 1)
Sum(g) == (SumTo(g, N - 1)) % Q
\* schoolbook product: X^N = -1
Mul(a, b) == TLCEval([k \in Ix |-> Sum([i \in Ix |-> IF i <= k THEN a[i] * b[k - i] ELSE Q - ((a[i] * b[k - i + N]) % Q)])])
Add(a, b) == TLCEval([i \in Ix |-> (a[i] + b[i]) % Q])
Sub(a, b) == TLCEval([i \in Ix |-> (a[i] - b[i]) % Q])
Scale(c, a) == TLCEval([i \in Ix |-> (c * a[i]) % Q])
Zero == [i \in Ix |-> 0]
Mono(k) == TLCEval(LET r == k % (2 * N) IN [i \in Ix |-> IF i = r THEN 1 ELSE IF i = r - N THEN Q - 1 ELSE 0])
----------------------------------------------------------------------------
\* powers of the root, and evaluation at W^(2j+1)
WP == TLCEval([e \in 0 .. 2 * N - 1 |-> (W ^ e) % Q])
Fwd(a) == TLCEval([j \in Ix |-> Sum([i \in Ix |-> a[i] * WP[((2 * j + 1) * i) % (2 * N)]])])
Inv(x) == CHOOSE y \in 1 .. Q - 1 : (x * y) % Q = 1
NInv == Inv(N % Q)
Back(v) == TLCEval([i \in Ix |-> (NInv * Sum([j \in Ix |-> v[j] * WP[(2 * N - (((2 * j + 1) * i) % (2 * N))) % (2 * N)]])) % Q])
PW(v, u) == TLCEval([j \in Ix |-> (v[j] * u[j]) % Q])
----------------------------------------------------------------------------
\* Go's remainder truncates towards zero
GoMod(k, m) == IF k >= 0 THEN k % m ELSE -((-k) % m)
Rot(a, k0) == TLCEval(LET r == GoMod(k0, IF Slip = "period" THEN N ELSE 2 * N)
      k == IF r < 0 /\ Slip # "neg" THEN r + 2 * N ELSE r
      neg(x) == (Q - x) % Q
  IN IF k = 0 THEN a
     ELSE IF k < 0 THEN [i \in Ix |-> 0]
     ELSE IF k < N THEN [i \in Ix |-> IF i >= k THEN a[i - k] ELSE neg(a[i - k + N])]
     ELSE LET m == k - N IN [i \in Ix |-> IF i >= m THEN neg(a[i - m]) ELSE IF Slip = "sign" THEN neg(a[i - m + N]) ELSE a[i - m + N]])
Ks == -(4 * N + 1) .. 4 * N + 1
----------------------------------------------------------------------------
Polys == [Ix -> C]
Init == p \in [1 .. 2 -> Polys] /\ f = [r \in 1 .. 2 |-> Zero] /\ ghost = [r \in 1 .. 2 |-> Zero]
Forward == \E r, s \in 1 .. 2 : f' = [f EXCEPT ![r] = Fwd(p[s])] /\ ghost' = [ghost EXCEPT ![r] = p[s]] /\ UNCHANGED p
FMul == \E r, s, t \in 1 .. 2 : f' = [f EXCEPT ![r] = PW(f[s], f[t])] /\ ghost' = [ghost EXCEPT ![r] = Mul(ghost[s], ghost[t])] /\ UNCHANGED p
FMulAdd == \E r, s, t \in 1 .. 2 : f' = [f EXCEPT ![r] = Add(f[r], PW(f[s], f[t]))]
              /\ ghost' = [ghost EXCEPT ![r] = Add(ghost[r], Mul(ghost[s], ghost[t]))] /\ UNCHANGED p
FSub == \E r, s, t \in 1 .. 2 : f' = [f EXCEPT ![r] = Sub(f[s], f[t])] /\ ghost' = [ghost EXCEPT ![r] = Sub(ghost[s], ghost[t])] /\ UNCHANGED p
FScale == \E r, s \in 1 .. 2, c \in 2 .. 3 : f' = [f EXCEPT ![r] = Scale(c, f[s])] /\ ghost' = [ghost EXCEPT ![r] = Scale(c, ghost[s])] /\ UNCHANGED p
Backward == \E r, s \in 1 .. 2 : p' = [p EXCEPT ![r] = Back(f[s])] /\ UNCHANGED << f, ghost >>
Next == Forward \/ FMul \/ FMulAdd \/ FSub \/ FScale \/ Backward
Spec == Init /\ [][Next]_vars
Short == TLCGet("level") <= 4
----------------------------------------------------------------------------
RoundTrip == \A r \in 1 .. 2 : Back(f[r]) = ghost[r]
Rotation  == \A k \in Ks : Rot(p[1], k) = Mul(p[1], Mono(k))
\* ring laws of the schoolbook product itself
Laws == /\ Mul(p[1], p[2]) = Mul(p[2], p[1])
        /\ Mul(p[1], Add(p[1], p[2])) = Add(Mul(p[1], p[1]), Mul(p[1], p[2]))
        /\ Mul(Mul(p[1], p[2]), p[2]) = Mul(p[1], Mul(p[2], p[2]))
\* every product of two initial polynomials, through the transform
SpecInit == Init /\ [][UNCHANGED vars]_vars
Products == /\ Back(PW(Fwd(p[1]), Fwd(p[2]))) = Mul(p[1], p[2])
            /\ Back(Sub(Fwd(p[1]), Fwd(p[2]))) = Sub(p[1], p[2])
            /\ Back(Scale(3, Fwd(p[1]))) = Scale(3, p[1])
=============================================================================
