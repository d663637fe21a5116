------------------------------ MODULE LutTable ------------------------------
(* Layout of a lookup table of N coefficients for message modulus m.  Seen
   through rotations, position j of 0 .. 2N-1 reads coefficient j, or minus
   coefficient j - N; position j is nearest to message x when |j - x N/m| is
   smallest.  Positions 0 .. N-1 belong to messages 0 .. m, where "message" m
   is message 0 reached from below, whose value is read negated.             *)
EXTENDS Integers, Torus
NearestX(j, m, N) == (2 * j * m + N) \div (2 * N)
Off(j, x, m, N) == Abs(j * m - x * N)          \* distance from x, times m
(* certainly x / possibly x, with one position of rounding slack *)
Surely(j, x, m, N) == Off(j, x, m, N) <= N \div 2 - m
Maybe(j, x, m, N)  == Off(j, x, m, N) <= N \div 2 + m
Cands(j, m, N) == {x \in NearestX(j, m, N) - 1 .. NearestX(j, m, N) + 1 : x >= 0 /\ x <= m /\ Maybe(j, x, m, N)}
=============================================================================
