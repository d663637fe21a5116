------------------------------ MODULE BitsTrace ------------------------------
(* Judges recorded conversions, encryptions of bit lists and programs over
   encrypted words.  Integers are logged as four 16-bit limbs, low limb
   first; bits as 0/1 lists, least significant first.  The state is the bit
   list of every word register; each word operation is the ripple machine of
   module Bits.                                                             *)
EXTENDS TraceLib, Torus, SequencesExt, FiniteSets
VARIABLES l, w, reg
vars == << l, w, reg >>
Reg == 1 .. 3
VBit(v, i) == IF i > 63 THEN 0 ELSE (v[(i \div 16) + 1] \div (2 ^ (i % 16))) % 2
IsV(v) == Len(v) = 4 /\ \A i \in 1 .. 4 : v[i] \in 0 .. 65535
IsBits(s) == \A i \in 1 .. Len(s) : s[i] \in {0, 1}
\* the integer of a bit list at width wd: exactly its first wd bits
ConvOK(e) == /\ IsV(e.v) /\ Len(e.bits) = e.n /\ e.after = e.bits
             /\ \A i \in 0 .. 63 : VBit(e.v, i) = (IF i < e.n /\ i < e.w THEN e.bits[i + 1] ELSE 0)
ToBitsOK(e) == /\ IsV(e.v) /\ Len(e.bits) = e.n /\ \A i \in 1 .. e.n : e.bits[i] = VBit(e.v, i - 1)
FixedOK(e) == /\ ToBitsOK(e) /\ e.n = e.w
              /\ e.back = e.v
\* all values of a small width: value number k of the run is from + k * step
RunOK(e) == \A k \in 1 .. Len(e.bits) :
              LET v == e.from + (k - 1) * e.step IN
              /\ Len(e.bits[k]) = e.w /\ e.back[k] = v
              /\ \A i \in 1 .. e.w : e.bits[k][i] = (v \div (2 ^ (i - 1))) % 2
Mu(b) == IF b = 1 THEN TPow(3) ELSE TNeg(TPow(3))
At(v, i) == << v[2 * i - 1], v[2 * i] >>
EncOK(e) == /\ Len(e.bits) = e.n /\ Len(e.phs) = 2 * e.n /\ e.back = e.bits /\ e.after = e.bits
            /\ \A i \in 1 .. e.n : TNear(At(e.phs, i), Mu(e.bits[i]), e.s8 + 1)
            \* one ciphertext each, none shared, and no list of equal masks
            /\ Cardinality({e.ids[i] : i \in 1 .. Len(e.ids)}) = e.n /\ Len(e.ids) = e.n
            /\ e.decins = e.back
DecOK(e) == Len(e.bits) = e.n /\ e.back = e.bits /\ e.same = TRUE
\* ---- words
FA(x, y, c) == << (x + y + c) % 2, (x + y + c) \div 2 >>
RECURSIVE Ripple(_, _, _, _, _)
Ripple(x, y, c, i, out) == IF i > Len(x) THEN << out, c >>
                           ELSE LET r == FA(x[i], y[i], c) IN Ripple(x, y, r[2], i + 1, Append(out, r[1]))
Inv(x) == [i \in 1 .. Len(x) |-> 1 - x[i]]
Zero == [i \in 1 .. w |-> 0]
Add(x, y) == Ripple(x, y, 0, 1, <<>>)[1]
Sub(x, y) == Ripple(x, Inv(y), 1, 1, <<>>)[1]
Less(x, y) == 1 - Ripple(x, Inv(y), 1, 1, <<>>)[2]
Shl(x, k) == [i \in 1 .. Len(x) |-> IF i <= k THEN 0 ELSE x[i - k]]
RECURSIVE MulAcc(_, _, _, _)
MulAcc(x, y, i, acc) == IF i > Len(y) THEN acc ELSE MulAcc(x, y, i + 1, IF y[i] = 1 THEN Add(acc, Shl(x, i - 1)) ELSE acc)
Z(x, y, P(_, _)) == [i \in 1 .. Len(x) |-> P(x[i], y[i])]
Res(e) == LET x == reg[e.a] y == reg[IF e.b = 0 THEN e.a ELSE e.b] IN
  CASE e.op = "add" -> Add(x, y)
    [] e.op = "sub" -> Sub(x, y)
    [] e.op = "mul" -> MulAcc(x, y, 1, Zero)
    [] e.op = "cmp" -> [i \in 1 .. w |-> IF i = 1 THEN Less(x, y) ELSE 1 - Less(x, y)]
    [] e.op = "sel" -> IF reg[e.s][1] = 1 THEN x ELSE y
    [] e.op = "and" -> Z(x, y, LAMBDA p, q : p * q)
    [] e.op = "nand" -> Z(x, y, LAMBDA p, q : 1 - p * q)
    [] e.op = "or" -> Z(x, y, LAMBDA p, q : Max2(p, q))
    [] e.op = "nor" -> Z(x, y, LAMBDA p, q : 1 - Max2(p, q))
    [] e.op = "xor" -> Z(x, y, LAMBDA p, q : (p + q) % 2)
    [] e.op = "xnor" -> Z(x, y, LAMBDA p, q : 1 - ((p + q) % 2))
    [] e.op = "not" -> Inv(x)
    [] e.op = "copy" -> x
\* every register is decrypted after every step
Shown(e, r) == /\ Len(e.regs) = 3 /\ \A k \in Reg : e.regs[k] = r[k]
Val16(s) == FoldLeft(LAMBDA a, i : a + s[i] * 2 ^ (i - 1), 0, [i \in 1 .. Len(s) |-> i])
Step(e) == /\ Len(e.out) = w /\ Shown(e, reg')
           /\ e.val = Val16(reg'[e.d])
Start(e) == w' = e.w /\ reg' = [k \in Reg |-> <<>>]
Loaded(e) == /\ Len(e.bits) = w /\ IsBits(e.bits) /\ reg' = [reg EXCEPT ![e.d] = e.bits] /\ UNCHANGED w /\ Step(e)
Word(e) == /\ reg' = [reg EXCEPT ![e.d] = TLCEval(Res(e))] /\ UNCHANGED w /\ Step(e)
Pure(e) == CASE e.ev = "conv" -> ConvOK(e) [] e.ev = "tobits" -> ToBitsOK(e) [] e.ev = "fixed" -> FixedOK(e)
             [] e.ev = "run" -> RunOK(e) [] e.ev = "enc" -> EncOK(e) [] e.ev = "dec" -> DecOK(e) [] OTHER -> FALSE
TInit == l = 1 /\ w = 0 /\ reg = [k \in Reg |-> <<>>]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.ev = "start" -> Start(e)
              [] e.ev = "load" -> Loaded(e)
              [] e.ev = "word" -> Word(e)
              [] OTHER -> UNCHANGED << w, reg >> /\ Holds(Pure(e))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
