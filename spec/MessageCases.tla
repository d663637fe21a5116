---------------------------- MODULE MessageCases ----------------------------
(* Enumerates the decision-relevant cases of the real 32-bit encoding: every
   listed modulus, messages at and beyond both ends of the range, errors at
   both edges of the tolerance.                                             *)
EXTENDS Integers, TLC, Json
CONSTANTS Moduli, Ks
VARIABLES c
Half(m) == (2 ^ 30) \div m
Slack(m) == 2 * m + 4
Xs(m) == {0, 1, m - 1, m, m + 1, -1, -m - 1, 2 * m + 3, m \div 2, 1000003, -1000003}
Es(h, s) == {0, 1, -1, h - s, s - h, h \div 2, -(h \div 2)}
Dec == {[t |-> "dec", m |-> m, x |-> x, e |-> e] : m \in Moduli, x \in {}, e \in {}}
DecOf(m) == {[t |-> "dec", m |-> m, x |-> x, e |-> e] : x \in Xs(m), e \in Es(Half(m), Slack(m))}
EncOf(m) == {[t |-> "enc", m |-> m, x |-> x, a |-> a] : x \in Xs(m), a \in {0, 1}}
CodeOf(m) == UNION {{[t |-> "code", m |-> m, k |-> k, x |-> x, e |-> e] : x \in Xs(m), e \in Es((2 ^ 30) \div (((k * m) + 1) \div 2), Slack(m))} : k \in {k \in Ks : k * m < 32768}}
SumOf(m) == {[t |-> "sum", m |-> m, op |-> o, x |-> x, y |-> y] : o \in {"add", "sub", "neg"}, x \in {0, 1, m - 1, m \div 2}, y \in {0, 1, m - 1, -1}}
Init == \E m \in Moduli : c \in DecOf(m) \cup EncOf(m) \cup CodeOf(m) \cup (IF m <= 1024 THEN SumOf(m) ELSE {})
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(ToJson(c))
=============================================================================
