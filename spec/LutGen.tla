------------------------------- MODULE LutGen -------------------------------
(* The table generator as a machine: a generator with a message modulus and a
   few tables.  The generation algorithm (fill a range per message, rotate by
   half a range, negate the tail) is as in the implementation; Layout states
   what a table must look like, independently.                              *)
EXTENDS LutTable, Sequences
CONSTANTS N, Moduli, V, Tab, Slip   \* V: size of the value group, Slip: deliberate error
VARIABLES gm, tab, fun
vars == << gm, tab, fun >>
DivRound(a, b) == (a + b \div 2) \div b
FillAt(i, m) == CHOOSE x \in 0 .. m - 1 : DivRound(x * N, m) <= i /\ i < DivRound((x + 1) * N, m)
Table(f, m) == LET off == DivRound(N, 2 * m)
               IN [i \in 0 .. N - 1 |->
                     LET v == f[FillAt((i + off) % N, m)]
                     IN IF i >= N - off + Slip THEN (-v) % V ELSE v]
None == [m |-> 0]
Zero == [i \in 0 .. N - 1 |-> 0]
Init == gm \in Moduli /\ tab = [t \in Tab |-> Zero] /\ fun = [t \in Tab |-> None]
Funs(m) == [0 .. m - 1 -> 0 .. V - 1]
Gen(t) == \E f \in Funs(gm) : tab' = [tab EXCEPT ![t] = Table(f, gm)] /\ fun' = [fun EXCEPT ![t] = [m |-> gm, f |-> f]] /\ UNCHANGED gm
(* custom generation uses another modulus and leaves the generator as it was *)
Custom(t) == \E m \in Moduli : \E f \in Funs(m) : tab' = [tab EXCEPT ![t] = Table(f, m)] /\ fun' = [fun EXCEPT ![t] = [m |-> m, f |-> f]] /\ UNCHANGED gm
Copy(t, s) == tab' = [tab EXCEPT ![t] = tab[s]] /\ fun' = [fun EXCEPT ![t] = fun[s]] /\ UNCHANGED gm
Clear(t) == tab' = [tab EXCEPT ![t] = Zero] /\ fun' = [fun EXCEPT ![t] = None] /\ UNCHANGED gm
Next == \E t, s \in Tab : Gen(t) \/ Custom(t) \/ Copy(t, s) \/ Clear(t)
Spec == Init /\ [][Next]_vars
Val(f, m, x) == IF x < m THEN f[x] ELSE (-f[x - m]) % V
LayoutOf(T, f, m) == \A j \in 0 .. N - 1 :
     LET x0 == NearestX(j, m, N)
     IN IF Surely(j, x0, m, N) THEN T[j] = Val(f, m, x0)
        ELSE \E x \in Cands(j, m, N) : T[j] = Val(f, m, x)
Layout == \A t \in Tab : IF fun[t] = None THEN tab[t] = Zero ELSE LayoutOf(tab[t], fun[t].f, fun[t].m)
=============================================================================
