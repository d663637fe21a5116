----------------------------- MODULE HeapCases ------------------------------
(* Every call with every pattern of coinciding operands and output, made
   twice with the same operands and parameters.                            *)
EXTENDS Integers, HeapCalls, TLC, Json
CONSTANTS Skip
VARIABLE c
Two(k) == CASE k \in {"ck", "ge", "bl"} -> {1} [] k = "" -> {0} [] OTHER -> 1 .. 2
Ins(s) == {f \in [1 .. Len(s.in) -> 1 .. 2] : \A i \in 1 .. Len(s.in) : f[i] \in Two(s.in[i])}
Init == \E s \in {x \in Sigs : x.c \notin Skip} : \E f \in Ins(s), o \in Two(s.out) :
          c = [c |-> s.c, in |-> f, kin |-> s.in, out |-> s.out, eff |-> s.eff, o |-> o,
               rep |-> IF s.c = "newck" THEN 1 ELSE 2]
Spec == Init /\ [][UNCHANGED c]_c
Emit == PrintT(ToJson(c))
=============================================================================
