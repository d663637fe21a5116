----------------------------- MODULE KeySwitch -----------------------------
(* Key switching on the discrete torus Z_Q, Q = 2^q: the mask is rounded to
   b*t bits and switched digit by digit.  Key entry (i, j, k) encrypts
   k * s_i * Q / 2^(b(j+1)) exactly; the accumulator is the phase of the
   output ciphertext.  The loop order and the wrap-around of the rounded mask
   are those of the algorithm; every mask and every key is explored.

   Exact: the output phase differs from the input phase by exactly the
   rounding errors of the mask elements that meet a key bit, each in
   [-h, h) for h half a unit of the last digit.                            *)
EXTENDS Integers, Torus
CONSTANTS q, b, t, n,
          Mode     \* "ok", or a mistake: "trunc", "short", "plus", "digit"
Q == 2 ^ q
U == 2 ^ (q - b * t)                  \* unit of the last digit
h == IF U > 1 THEN U \div 2 ELSE 0
I == 1 .. n
VARIABLES a, s, body, acc, i, j
vars == << a, s, body, acc, i, j >>
PhIn == (body - (IF s[1] = 1 THEN a[1] ELSE 0) - (IF n >= 2 /\ s[n] = 1 THEN a[n] ELSE 0)) % Q
Init == /\ a \in [I -> 0 .. Q - 1] /\ s \in [I -> 0 .. 1] /\ body \in {0, 1, Q - 1}
        /\ acc = body /\ i = 1 /\ j = 0
Off == IF Mode = "trunc" THEN 0 ELSE h
Bar(x) == (x + Off) % Q
Digit(x, jj) == (Bar(x) \div (2 ^ (q - (jj + 1) * b))) % (2 ^ b)
Entry(ii, jj, k) == (k * s[ii] * 2 ^ (q - b * (jj + 1))) % Q
Levels == IF Mode = "short" THEN t - 1 ELSE t
Step == /\ i <= n
        /\ LET k == IF Mode = "digit" /\ Digit(a[i], j) = 2 ^ b - 1 THEN 0 ELSE Digit(a[i], j)
           IN acc' = (IF Mode = "plus" THEN acc + Entry(i, j, k) ELSE acc - Entry(i, j, k)) % Q
        /\ IF j + 1 < Levels THEN j' = j + 1 /\ i' = i ELSE j' = 0 /\ i' = i + 1
        /\ UNCHANGED << a, s, body >>
Spec == Init /\ [][Step]_vars
Done == i = n + 1
Err(x) == ((x + h) % U) - h
Exact == Done => acc = (PhIn + (IF s[1] = 1 THEN Err(a[1]) ELSE 0) + (IF n >= 2 /\ s[n] = 1 THEN Err(a[n]) ELSE 0)) % Q
Bounded == Done => Dist(acc, PhIn, Q) <= n * h
(* without bias: over all masks the errors cancel but for the half-open end *)
RECURSIVE SumErr(_)
SumErr(x) == IF x = 0 THEN Err(0) ELSE Err(x) + SumErr(x - 1)
ASSUME SumErr(Q - 1) = IF U > 1 THEN -(Q \div 2) ELSE 0
=============================================================================
