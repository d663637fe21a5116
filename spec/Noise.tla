-------------------------------- MODULE Noise --------------------------------
(* Error growth in circuits.  A register holds the error of its ciphertext
   (phase minus encoding), discretised.  Fresh encryptions have an error in
   -F..F; linear combinations add errors; a bootstrap of a decodable operand
   (|error| + entry error below the margin) yields an error in -B..B that is
   chosen afresh, whatever the operand's was.  Depth is unbounded: it only
   counts modulo 2, so the state space is finite.                           *)
EXTENDS Integers
CONSTANTS F, B, E,        \* fresh, bootstrapped, entry (modulus switching) error bounds
          Margin,         \* decision margin
          Scale,          \* weight with which gates combine operands (XOR: 1 and 2)
          Reg, Slip
VARIABLES err, ok, deep   \* ok: every decision so far was right; deep: register bootstrapped at least once
vars == << err, ok, deep >>
Abs(x) == IF x < 0 THEN -x ELSE x
Init == err = [r \in Reg |-> 0] /\ deep = [r \in Reg |-> FALSE] /\ ok = TRUE
Fresh == \E d \in Reg, e \in -F .. F : err' = [err EXCEPT ![d] = e] /\ deep' = [deep EXCEPT ![d] = FALSE] /\ UNCHANGED ok
\* the new error; slips: part of the operand's error survives, a bias, a missing refresh of one operand class
After(e, x) == CASE Slip = "carry" -> e + x \div 2
                 [] Slip = "bias" -> e + 1
                 [] Slip = "skip" /\ Abs(x) <= 1 -> x + e
                 [] OTHER -> e
Gate == \E d, a, b \in Reg, w \in 1 .. Scale, s \in -E .. E, e \in -B .. B :
          LET x == err[a] + w * err[b] IN
          /\ ok' = (ok /\ Abs(x + s) < Margin)
          /\ err' = [err EXCEPT ![d] = After(e, x)]
          /\ deep' = [deep EXCEPT ![d] = TRUE]
Next == Fresh \/ Gate
Spec == Init /\ [][Next]_vars
\* the noise level is a fixed point: no growth with depth, every decision right
Refreshed == \A r \in Reg : deep[r] => Abs(err[r]) <= B
Decodable == ok
=============================================================================
