------------------------------- MODULE Torus -------------------------------
(* Arithmetic on a discretised torus.  TLC's integers are 32-bit signed, so
   a 32-bit torus element of the implementation is a pair of 16-bit limbs
   <<hi, lo>>, high limb first; the small models use Z_M for a modulus M.    *)
EXTENDS Integers, Sequences

B16 == 65536

----------------------------------------------------------------------------
(* Z_M *)
MMod(x, M)  == x % M                                   \* TLA+ %: 0..M-1
Centre(x, M) == LET y == x % M IN IF 2 * y >= M THEN y - M ELSE y
Dist(x, y, M) == LET d == (x - y) % M IN IF 2 * d >= M THEN M - d ELSE d
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

----------------------------------------------------------------------------
(* 32-bit elements as limb pairs *)
TZero == <<0, 0>>
TOne  == <<0, 1>>
IsT(x) == x[1] \in 0 .. B16 - 1 /\ x[2] \in 0 .. B16 - 1

TAdd(x, y) == LET lo == x[2] + y[2]
                  c  == lo \div B16
              IN << (x[1] + y[1] + c) % B16, lo % B16 >>
TNeg(x) == IF x[2] = 0 THEN << (B16 - x[1]) % B16, 0 >>
           ELSE << B16 - 1 - x[1], B16 - x[2] >>
TSub(x, y) == TAdd(x, TNeg(y))

(* x * k for 0 <= k < 2^15 : the partial products stay below 2^31 *)
TScaleS(x, k) == LET lo == x[2] * k
                 IN << (((x[1] * k) % B16) + lo \div B16) % B16, lo % B16 >>
(* full 32 x 32 -> 32 product: the multiplier in 8-bit digits *)
TShl8(x) == << ((x[1] % 256) * 256 + x[2] \div 256) % B16, (x[2] % 256) * 256 >>
TMul(x, y) ==
  LET d0 == y[2] % 256
      d1 == y[2] \div 256
      d2 == y[1] % 256
      d3 == y[1] \div 256
  IN TAdd(TScaleS(x, d0),
     TShl8(TAdd(TScaleS(x, d1),
     TShl8(TAdd(TScaleS(x, d2),
     TShl8(TScaleS(x, d3)))))))

(* small signed integer as torus element, |k| < 2^31 *)
TInt(k) == IF k >= 0 THEN << k \div B16, k % B16 >> ELSE TNeg(<< (-k) \div B16, (-k) % B16 >>)

(* signed distance x - y if it is below 2^30 in absolute value, else +-2^30 *)
TDist(x, y) ==
  LET d == TSub(x, y)
  IN IF d[1] < 16384 THEN d[1] * B16 + d[2]
     ELSE IF d[1] >= B16 - 16384 THEN (d[1] - B16) * B16 + d[2]
     ELSE IF d[1] < 32768 THEN 1073741824 ELSE -1073741824
TNear(x, y, eps) == Abs(TDist(x, y)) <= eps

(* floor(k * 2^31 / m) for 0 <= k < m < 2^15: long division, 16 + 15 bits *)
THalfFrac(k, m) ==
  LET q1 == (k * B16) \div m              \* first 16 bits of k/m
      r1 == (k * B16) % m
      q2 == (r1 * 32768) \div m           \* next 15 bits
      \* q1 * 2^15 + q2, as limbs
      hi == q1 \div 2
      lo == (q1 % 2) * 32768 + q2
  IN << hi, lo >>
(* floor(x * 2^32 / q) for 0 <= x < q < 2^15 *)
TFrac(x, q) == LET r1 == (x * B16) % q
               IN << (x * B16) \div q, (r1 * B16) \div q >>
(* 2^(32 - s) for 1 <= s <= 32 *)
TPow(s) == IF s <= 16 THEN << 2 ^ (16 - s), 0 >> ELSE << 0, 2 ^ (32 - s) >>

TLe(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])

(* x >> s as an integer, 2 <= s <= 32 (so that it fits 31 bits) *)
TShr(x, s) == IF s = 32 THEN 0
              ELSE IF s >= 16 THEN x[1] \div (2 ^ (s - 16))
              ELSE x[1] * (2 ^ (16 - s)) + x[2] \div (2 ^ s)
=============================================================================
