------------------------------- MODULE Gates -------------------------------
(* The boolean gates at the level of phases.  A bit is encoded as +-1/8 of
   the torus Z_M; a two-input gate is a linear combination of the operand
   phases plus an offset, followed by a sign bootstrap.  Truth tables are
   stated independently of the linear forms.                               *)
EXTENDS Integers, Torus

CONSTANT M                \* size of the discretised torus, multiple of 16

Mu(b) == IF b THEN M \div 8 ELSE (M - M \div 8) % M
DecB(ph) == (ph % M) < M \div 2              \* decryption: sign of the phase

Gate2 == {"AND", "OR", "NAND", "NOR", "XOR", "XNOR", "ANDNY", "ANDYN", "ORNY", "ORYN"}

Truth(g, a, b) ==
  CASE g = "AND"   -> a /\ b
    [] g = "OR"    -> a \/ b
    [] g = "NAND"  -> ~(a /\ b)
    [] g = "NOR"   -> ~(a \/ b)
    [] g = "XOR"   -> a # b
    [] g = "XNOR"  -> a = b
    [] g = "ANDNY" -> ~a /\ b
    [] g = "ANDYN" -> a /\ ~b
    [] g = "ORNY"  -> ~a \/ b
    [] g = "ORYN"  -> a \/ ~b

TruthMux(a, b, c) == IF a THEN b ELSE c

(* What is bootstrapped (linear part), as the implementation prepares it *)
E8 == M \div 8
Lin(g, x, y) ==
  CASE g = "AND"   -> x + y - E8
    [] g = "OR"    -> x + y + E8
    [] g = "NAND"  -> E8 - (x + y)
    [] g = "NOR"   -> -(x + y) - E8
    [] g = "XOR"   -> x + 2 * y + 2 * E8
    [] g = "XNOR"  -> x - 2 * y + 2 * E8
    [] g = "ANDNY" -> y - x - E8
    [] g = "ANDYN" -> x - y - E8
    [] g = "ORNY"  -> y - x + E8
    [] g = "ORYN"  -> x - y + E8

(* An output phase r is admissible for a bootstrap of phase x when it is
   within E of +1/8 or -1/8 according to the sign of x, which the modulus
   switch sees with an error of at most W.                                 *)
BootOK(x, r, E, W) ==
  \E w \in {-W, 0, W} : Dist(r, Mu(DecB(x + w)), M) <= E
NearBit(r, b, E) == Dist(r, Mu(b), M) <= E
=============================================================================
