------------------------------ MODULE NegaRots ------------------------------
(* Every rotation amount of a small ring (negative ones and ones beyond a full
   period included), and the boundary amounts of a large ring.              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.ROTN)
All == N <= 32
Ks == IF All THEN -(4 * N + 1) .. 4 * N + 1
      ELSE {s * m + d : s \in {-1, 1}, m \in {0, N \div 2, N, 2 * N, 3 * N, 4 * N, 1000 * N}, d \in {-1, 0, 1}}
VARIABLE k
Init == k \in Ks
Spec == Init /\ [][UNCHANGED k]_k
Emit == PrintT(ToJson([n |-> N, k |-> k]))
=============================================================================
