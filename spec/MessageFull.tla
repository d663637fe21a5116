----------------------------- MODULE MessageFull ----------------------------
(* One encryption, every modulus, message and error, on a larger torus.     *)
EXTENDS Message
FInit == m \in Moduli /\ ph = [r \in Reg |-> None] /\ msg = [r \in Reg |-> 0] /\ err = [r \in Reg |-> 0]
FNext == \E d \in Reg, x \in 0 .. m - 1, e \in -Tol(m) .. Tol(m) : ph[d] = None /\ Encrypt(d, x, e)
FSpec == FInit /\ [][FNext]_vars
(* without the rounding of the decoder the round trip fails *)
BadDec(p, mm) == ((p % M) \div Scale(mm)) % mm
BadRoundTrip == \A r \in Reg : Set(r) => BadDec(ph[r], m) = msg[r]
=============================================================================
