------------------------------ MODULE Message -------------------------------
(* Integer messages on the torus Z_M: message x of modulus m is encoded as
   x * (M/2)/m, rounded down; decoding divides by the integer scale
   (M/2) div m, rounding to nearest.  Registers hold a phase; msg and err are
   the message it must decode to and the accumulated error.                  *)
EXTENDS Integers, Torus
CONSTANTS M,          \* torus size, even
          Moduli,     \* message moduli
          Reg, NoiseMax
VARIABLES m, ph, msg, err
vars == << m, ph, msg, err >>
H == M \div 2
Enc(x, mm) == ((x % mm) * H) \div mm
Scale(mm) == H \div mm
Dec(p, mm) == (((p + Scale(mm) \div 2) % M) \div Scale(mm)) % mm
(* error that decoding tolerates: half the distance between messages, less
   what the truncated scale and the two truncations can shift the boundary  *)
Tol(mm) == Scale(mm) \div 2 - 2 * (mm + 1)
None == -1
Init == /\ m \in Moduli /\ ph = [r \in Reg |-> None] /\ msg = [r \in Reg |-> 0] /\ err = [r \in Reg |-> 0]
Put(d, p, x, e) == ph' = [ph EXCEPT ![d] = p % M] /\ msg' = [msg EXCEPT ![d] = x % m] /\ err' = [err EXCEPT ![d] = e] /\ UNCHANGED m
Set(r) == ph[r] # None
(* err bounds the distance of a phase from the exact encoding; the encoding
   itself is truncated by less than one unit                                *)
Encrypt(d, x, e) == Put(d, Enc(x, m) + e, x, Abs(e) + 1)
Add(d, a, b) == Set(a) /\ Set(b) /\ Put(d, ph[a] + ph[b], msg[a] + msg[b], err[a] + err[b])
Sub(d, a, b) == Set(a) /\ Set(b) /\ Put(d, ph[a] - ph[b], msg[a] - msg[b], err[a] + err[b])
Neg(d, a) == Set(a) /\ Put(d, -ph[a], -msg[a], err[a])
Next == \/ \E d \in Reg, x \in -m .. 2 * m, e \in {-NoiseMax, -1, 0, NoiseMax} : Encrypt(d, x, e)
        \/ \E d, a, b \in Reg : Add(d, a, b) \/ Sub(d, a, b) \/ Neg(d, a)
Spec == Init /\ [][Next]_vars
Bound == \A r \in Reg : err[r] <= 2 * (NoiseMax + 1)
RoundTrip == \A r \in Reg : Set(r) /\ Abs(err[r]) <= Tol(m) + 1 => Dec(ph[r], m) = msg[r]
=============================================================================
