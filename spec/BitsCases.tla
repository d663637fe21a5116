------------------------------ MODULE BitsCases -----------------------------
(* Conversions and encryptions of bit lists to try: every width, list lengths
   below, at and beyond it, and the patterns in which a wrong shift, mask,
   width or order shows.                                                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Full == IOEnv.FULL = "1"
VARIABLE c
Pats == {"zeros", "ones", "alt", "alt2", "first", "last", "word", "rand", "rand2"}
Lens(w) == 0 .. w + 9
Near(w) == {0, 1, 2, w - 1, w, w + 1, w + 2, w + 9} \cup (IF w >= 32 THEN {w \div 2 - 1, w \div 2, w \div 2 + 1} ELSE {})
Sizes == IF Full THEN 0 .. 80 ELSE {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48, 55, 62, 63, 64, 65, 66, 80}
Widths == {8, 16, 32, 64}
Conv == UNION {{[op |-> "conv", w |-> w, n |-> n, pat |-> p] : n \in IF Full THEN Lens(w) ELSE Near(w), p \in Pats} : w \in Widths}
ToB == {[op |-> "tobits", w |-> 0, n |-> s, pat |-> p] : s \in Sizes, p \in Pats}
Fix == {[op |-> "fixed", w |-> w, n |-> w, pat |-> p] : w \in Widths, p \in Pats}
Enc == {[op |-> "enc", w |-> a, n |-> n, pat |-> p] : a \in {0, 1, 2}, n \in IF Full THEN 0 .. 40 ELSE {0, 1, 2, 3, 8, 9, 16, 17, 33}, p \in {"zeros", "ones", "alt", "last", "rand"}}
Dec == {[op |-> "dec", w |-> s, n |-> n, pat |-> p] : s \in 0 .. 10, n \in {1, 2, 8, 13}, p \in {"ones", "alt", "last", "rand"}}
Init == c \in Conv \cup ToB \cup Fix \cup Enc \cup Dec
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(ToJson(c))
=============================================================================
