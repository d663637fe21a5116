------------------------------- MODULE Linear -------------------------------
(* Registers of ciphertexts <<a_1 .. a_n, b>> over Z_M and the linear
   operations on them.  ph is the phase each register must have under every
   key, maintained by the algebra of the operations alone; Homomorphic says
   that the components really have that phase.  The destination may be any
   register, also an operand.                                               *)
EXTENDS Integers, Sequences, Torus
CONSTANTS M,       \* modulus
          Dim,     \* mask length n
          Reg      \* register names
Vec == [1 .. Dim + 1 -> 0 .. M - 1]
Keys == [1 .. Dim -> {0, 1}]
VARIABLES ct, ph
vars == << ct, ph >>

RECURSIVE Dot(_, _, _)
Dot(c, s, i) == IF i = 0 THEN 0 ELSE c[i] * s[i] + Dot(c, s, i - 1)
Phase(c, s) == (c[Dim + 1] - Dot(c, s, Dim)) % M

Zero == [i \in 1 .. Dim + 1 |-> 0]
Init == ct = [r \in Reg |-> Zero] /\ ph = [r \in Reg |-> [s \in Keys |-> 0]]
Put(d, v, p) == ct' = [ct EXCEPT ![d] = v] /\ ph' = [ph EXCEPT ![d] = p]
Comp(F(_, _), x, y) == [i \in 1 .. Dim + 1 |-> F(x[i], y[i]) % M]
PhComb(k, l, p, q) == [s \in Keys |-> (k * p[s] + l * q[s]) % M]

Load(d, v) == Put(d, v, [s \in Keys |-> Phase(v, s)])
AddF(x, y) == x + y
SubF(x, y) == x - y
Add(d, a, b) == Put(d, Comp(AddF, ct[a], ct[b]), PhComb(1, 1, ph[a], ph[b]))
Sub(d, a, b) == Put(d, Comp(SubF, ct[a], ct[b]), PhComb(1, -1, ph[a], ph[b]))
Neg(d, a)    == Put(d, [i \in 1 .. Dim + 1 |-> (-ct[a][i]) % M], PhComb(-1, 0, ph[a], ph[a]))
AddMul(d, a, b, k) == Put(d, [i \in 1 .. Dim + 1 |-> (ct[a][i] + k * ct[b][i]) % M], PhComb(1, k, ph[a], ph[b]))
SubMul(d, a, b, k) == Put(d, [i \in 1 .. Dim + 1 |-> (ct[a][i] - k * ct[b][i]) % M], PhComb(1, -k, ph[a], ph[b]))
(* component-wise product: no phase law; the phase is that of the result *)
Mul(d, a, b) == LET v == [i \in 1 .. Dim + 1 |-> (ct[a][i] * ct[b][i]) % M] IN Load(d, v)
(* gate preparation: linear combination plus a constant in the body *)
Prep(d, a, b, k, l, c) ==
  Put(d, [i \in 1 .. Dim + 1 |-> (k * ct[a][i] + l * ct[b][i] + (IF i = Dim + 1 THEN c ELSE 0)) % M],
      [s \in Keys |-> (k * ph[a][s] + l * ph[b][s] + c) % M])

Next == \E d, a, b \in Reg, k \in 0 .. M - 1 :
          \/ Add(d, a, b) \/ Sub(d, a, b) \/ Neg(d, a) \/ Mul(d, a, b)
          \/ AddMul(d, a, b, k) \/ SubMul(d, a, b, k)
          \/ Prep(d, a, b, 1, 2, k) \/ Prep(d, a, b, -1, -1, k)
          \/ \E v \in Vec : Load(d, v)
Spec == Init /\ [][Next]_vars

TypeOK == ct \in [Reg -> Vec]
Homomorphic == \A r \in Reg, s \in Keys : ph[r][s] = Phase(ct[r], s)
(* the body is part of every operation: a mutated algebra that skips it is
   refuted by this configuration                                            *)
BadAdd(d, a, b) == Put(d, [i \in 1 .. Dim + 1 |-> IF i = Dim + 1 THEN ct[a][i] ELSE (ct[a][i] + ct[b][i]) % M],
                       PhComb(1, 1, ph[a], ph[b]))
BadNext == Next \/ \E d, a, b \in Reg : BadAdd(d, a, b)
BadSpec == Init /\ [][BadNext]_vars
=============================================================================
