-------------------------------- MODULE Bits --------------------------------
(* Unsigned integers as bit lists, least significant bit first, and the
   word-level circuits built from gates over them.  The machine processes one
   bit position per step; the invariants relate the processed positions to the
   integers.                                                                *)
EXTENDS Integers, Sequences
CONSTANTS W,            \* word width
          Slip
VARIABLES a, b, op, i, carry, out, acc
vars == << a, b, op, i, carry, out, acc >>
Range == 0 .. 2 ^ W - 1
ToBits(v, size) == [k \in 1 .. size |-> (v \div (2 ^ (IF Slip = "order" THEN size - k ELSE k - 1))) % 2]
\* a conversion keeps as many low bits as the target has
Convert(bits, width) ==
  LET n == Len(bits)
      from == IF Slip = "keephigh" /\ n > width THEN n - width ELSE 0
      RECURSIVE Go(_)
      Go(k) == IF k > n THEN 0 ELSE bits[k] + 2 * Go(k + 1)
  IN Go(from + 1) % (2 ^ width)
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE s[1] + 2 * Val(Tail(s))
Xor(x, y) == (x + y) % 2
And(x, y) == x * y
Or(x, y)  == IF x + y > 0 THEN 1 ELSE 0
Not(x)    == 1 - x
BitAt(v, k) == (v \div (2 ^ k)) % 2
Ops == {"add", "sub", "lt", "mux", "mul"}
Init == /\ a \in Range /\ b \in Range /\ op \in Ops
        /\ i = 0 /\ out = <<>> /\ acc = 0
        /\ carry = (IF op \in {"sub", "lt"} THEN 1 ELSE 0)
FullAdder(x, y, c) == LET p == Xor(x, y) IN << Xor(p, c), Or(And(x, y), IF Slip = "carry" THEN And(y, c) ELSE And(p, c)) >>
Step == /\ i < W /\ i' = i + 1 /\ UNCHANGED << a, b, op >>
        /\ CASE op = "add" -> LET r == FullAdder(BitAt(a, i), BitAt(b, i), carry) IN out' = Append(out, r[1]) /\ carry' = r[2] /\ acc' = acc
             [] op = "sub" -> LET r == FullAdder(BitAt(a, i), Not(BitAt(b, i)), carry) IN out' = Append(out, r[1]) /\ carry' = r[2] /\ acc' = acc
             [] op = "lt"  -> LET r == FullAdder(BitAt(a, i), Not(BitAt(b, i)), carry) IN carry' = r[2] /\ out' = << Not(r[2]) >> /\ acc' = acc
             [] op = "mux" -> \* selects by the lowest bit of b
                              out' = Append(out, IF BitAt(b, 0) = 1 THEN BitAt(a, i) ELSE BitAt(b, i)) /\ UNCHANGED << carry, acc >>
             [] op = "mul" -> \* add a shifted by i when bit i of b is set
                              acc' = (acc + (IF BitAt(b, i) = 1 THEN a * 2 ^ i ELSE 0)) % (2 ^ W) /\ out' = ToBits(acc', W) /\ carry' = carry
Next == Step
Spec == Init /\ [][Next]_vars
Low(v) == v % (2 ^ i)
Partial == CASE op = "add" -> Val(out) + carry * 2 ^ i = Low(a) + Low(b)
             [] op = "sub" -> Val(out) + carry * 2 ^ i = Low(a) - Low(b) + 2 ^ i
             [] op = "lt"  -> i > 0 => (out[1] = 1) = (Low(a) < Low(b))
             [] op = "mux" -> Val(out) = Low(IF b % 2 = 1 THEN a ELSE b)
             [] op = "mul" -> i > 0 => Val(out) = (a * Low(b)) % (2 ^ W)
RoundTrip == \A n \in 0 .. W + 2 : /\ Val(ToBits(a, n)) = a % (2 ^ n)
                                   /\ \A w \in 1 .. W : Convert(ToBits(a, n), w) = a % (2 ^ (IF n < w THEN n ELSE w))
                                   /\ Len(ToBits(a, n)) = n
=============================================================================
