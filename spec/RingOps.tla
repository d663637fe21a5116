------------------------------ MODULE RingOps -------------------------------
(* Ring ciphertexts <<a, b>> over Z_M[X]/(X^N+1) under a binary key, and the
   operations bootstrapping is made of: extraction of a coefficient, gadget
   decomposition, external product with an encrypted scalar, controlled
   selection, blind rotation.  Negations are one's complements, as in the
   implementation.  Every state is one choice of key and operands; the
   invariants say what the operations do to the phase.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, M, Bg, L, C,      \* C: coefficients the operands are made of
          LwC,                 \* components of the small ciphertexts
          Slip
VARIABLES s, t, x, y, lw       \* ring key, small key, two ring ciphertexts, a small ciphertext
vars == << s, t, x, y, lw >>
Ix == 0 .. N - 1
LW == 2                        \* dimension of the small ciphertext
RECURSIVE SumTo(_, _)
SumTo(g, k) == IF k < 0 THEN 0 ELSE g[k] + SumTo(g, k - 1)
Sum(g, n) == (SumTo(g, n - 1)) % M
Mul(a, b) == TLCEval([k \in Ix |-> Sum([i \in Ix |-> IF i <= k THEN a[i] * b[k - i] ELSE -(a[i] * b[k - i + N])], N)])
AddP(a, b) == TLCEval([i \in Ix |-> (a[i] + b[i]) % M])
SubP(a, b) == TLCEval([i \in Ix |-> (a[i] - b[i]) % M])
ScaleP(c, a) == TLCEval([i \in Ix |-> (c * a[i]) % M])
Phase(c) == SubP(c[2], Mul(c[1], s))
Dist(u, v) == LET d == (u - v) % M IN IF 2 * d >= M THEN M - d ELSE d
Near(u, v, e) == \A i \in Ix : Dist(u[i], v[i]) <= e
Pow(k) == Bg ^ k
G(i) == M \div Pow(i)                        \* gadget element, i in 1..L
Half == IF Pow(L) = M THEN 0 ELSE (M \div Pow(L)) \div 2
Ones == Cardinality({i \in Ix : s[i] = 1})
----------------------------------------------------------------------------
(* extraction *)
Neg1(v) == (M - 1 - v) % M                   \* one's complement
Extract(c, k) == [p |-> [i \in Ix |-> IF i <= k THEN c[1][k - i]
                                      ELSE IF Slip = "noflip" THEN c[1][N + k - i] ELSE Neg1(c[1][N + k - i])],
                  b |-> c[2][k]]
LPhase(e) == (e.b - Sum([i \in Ix |-> e.p[i] * s[i]], N)) % M
Extraction == \A k \in Ix : Dist(LPhase(Extract(x, k)), Phase(x)[k]) <= Ones
----------------------------------------------------------------------------
(* gadget decomposition *)
Offset == (SumTo([i \in 0 .. L - 1 |-> (Bg \div 2) * G(i + 1)], L - 1) + (IF Slip = "truncate" THEN 0 ELSE Half)) % M
Digit(v, i) == ((((v + Offset) % M) \div G(i)) % Bg) - (Bg \div 2)
Recomb(v) == SumTo([i \in 0 .. L - 1 |-> Digit(v, i + 1) * G(i + 1)], L - 1) % M
Digits == \A v \in 0 .. M - 1 : /\ \A i \in 1 .. L : Digit(v, i) \in -(Bg \div 2) .. (Bg \div 2)
                                /\ Dist(Recomb(v), v) <= Half
----------------------------------------------------------------------------
(* external product with an encryption of the integer p: rows of a gadget
   ciphertext with arbitrary masks and no noise                              *)
Mask(i) == TLCEval([j \in Ix |-> (37 * i + 11 * j + 5 * i * j + 3) % M])
Zero(i) == << Mask(i), Mul(Mask(i), s) >>
At0(v) == TLCEval([j \in Ix |-> IF j = 0 THEN v % M ELSE 0])
Row(p, i) == IF i <= L THEN << AddP(Zero(i)[1], At0(p * G(i))), Zero(i)[2] >>
             ELSE << Zero(i)[1], AddP(Zero(i)[2], At0(p * G(i - L))) >>
DecP(a, i) == TLCEval([j \in Ix |-> Digit(a[j], i)])
RECURSIVE Acc(_, _, _)
Acc(c, p, i) == IF i = 0 THEN << [j \in Ix |-> 0], [j \in Ix |-> 0] >>
                ELSE LET r == Row(p, i)
                         d == IF (i <= L) = (Slip # "swap") THEN DecP(c[1], IF i <= L THEN i ELSE i - L)
                              ELSE DecP(c[2], IF i <= L THEN i ELSE i - L)
                         z == Acc(c, p, i - 1)
                     IN << AddP(z[1], Mul(d, r[1])), AddP(z[2], Mul(d, r[2])) >>
ExtProd(p, c) == Acc(c, p, 2 * L)
EpErr == Half * (1 + Ones)
External == \A p \in {-1, 0, 1, 2} : Near(Phase(ExtProd(p, x)), ScaleP(p, Phase(x)), EpErr * (IF p < 0 THEN -p ELSE p))
----------------------------------------------------------------------------
CMux(p, c0, c1) == LET d == << SubP(c1[1], c0[1]), SubP(c1[2], c0[2]) >>
                       e == ExtProd(p, d)
                       base == IF Slip = "base" THEN c1 ELSE c0
                   IN << AddP(e[1], base[1]), AddP(e[2], base[2]) >>
Selection == \A p \in {0, 1} : Near(Phase(CMux(p, x, y)), Phase(IF p = 1 THEN y ELSE x), EpErr)
----------------------------------------------------------------------------
(* blind rotation *)
RotP(a, k0) == TLCEval(LET k == k0 % (2 * N)
                   m == k % N
               IN [i \in Ix |-> LET src == IF i >= m THEN i - m ELSE i - m + N
                                IN IF (i >= m) = (k >= N) THEN Neg1(a[src]) ELSE a[src]])
RotC(c, k) == << RotP(c[1], k), RotP(c[2], k) >>
Exact(a, k0) == TLCEval(LET k == k0 % (2 * N)
                    m == k % N
                IN [i \in Ix |-> LET src == IF i >= m THEN i - m ELSE i - m + N
                                 IN IF (i >= m) = (k >= N) THEN (M - a[src]) % M ELSE a[src]])
Cell == M \div (2 * N)
Switch(v) == ((v + (IF Slip = "floor" THEN 0 ELSE Cell \div 2)) \div Cell) % (2 * N)
\* the exponent prescribed by the rounded components
Turn(e) == (-(((e.b + (Cell \div 2)) \div Cell) % (2 * N)) + SumTo([i \in 0 .. LW - 1 |-> (((e.a[i] + (Cell \div 2)) \div Cell) % (2 * N)) * t[i]], LW - 1)) % (2 * N)
RECURSIVE Steps(_, _, _)
Steps(acc, e, i) == IF i = LW THEN acc ELSE Steps(CMux(t[i], acc, RotC(acc, Switch(e.a[i]))), e, i + 1)
BlindRotate(e, tv) == Steps(RotC(tv, 2 * N - Switch(e.b)), e, 0)
BrErr == (1 + Ones) + LW * (EpErr + 1 + Ones)
Rotation == Near(Phase(BlindRotate(lw, x)), Exact(Phase(x), Turn(lw)), BrErr)
----------------------------------------------------------------------------
Cts == [1 .. 2 -> [Ix -> C]]
Lws == {[a |-> a, b |-> b] : a \in [0 .. LW - 1 -> LwC], b \in LwC}
Key0 == [i \in Ix |-> 1]
Lw0 == CHOOSE e \in Lws : TRUE
\* all operands of the operations on one ciphertext
InitOne == s \in [Ix -> {0, 1}] /\ t = [i \in 0 .. LW - 1 |-> 0] /\ x \in Cts /\ y = x /\ lw = Lw0
\* pairs of ciphertexts
InitTwo == s \in [Ix -> {0, 1}] /\ t = [i \in 0 .. LW - 1 |-> 0] /\ x \in Cts /\ y \in Cts /\ lw = Lw0
\* every small ciphertext against test vectors with a mask
InitRot == s \in [Ix -> {0, 1}] /\ t \in [0 .. LW - 1 -> {0, 1}] /\ x \in Cts /\ y = x /\ lw \in Lws
SpecOne == InitOne /\ [][UNCHANGED vars]_vars
SpecTwo == InitTwo /\ [][UNCHANGED vars]_vars
SpecRot == InitRot /\ [][UNCHANGED vars]_vars
=============================================================================
