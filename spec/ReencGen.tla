----------------------------- MODULE ReencGen ------------------------------
(* Histories of encryption, delegation, re-encryption (also with the wrong
   key), public-key encryption and computing at the delegatee.             *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS Parties, Reg, Slots, Depth, Kinds, Shapes
VARIABLES hist, own, rk, done
vars == << hist, own, rk, done >>
Init == hist = <<>> /\ own = [r \in Reg |-> 0] /\ rk = [x \in Slots |-> << 0, 0 >>] /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
(* owner 0: free; 9: residue of a wrong re-encryption *)
Enc == \E d \in Reg, p \in Parties, b \in 0 .. 1, sh \in Shapes :
         Log([op |-> "enc", d |-> d, p |-> p, b |-> b, sh |-> sh]) /\ own' = [own EXCEPT ![d] = p] /\ UNCHANGED rk
PkEnc == \E d \in Reg, p \in Parties, b \in 0 .. 1, z \in {"zero", "def"} :
         Log([op |-> "pkenc", d |-> d, p |-> p, b |-> b, z |-> z]) /\ own' = [own EXCEPT ![d] = p] /\ UNCHANGED rk
RKey == \E x \in Slots, f, t \in Parties, k \in Kinds, m \in {"sym", "asym"}, z \in {"zero", "def"} :
         f # t /\ Log([op |-> "rkey", x |-> x, f |-> f, t |-> t, k |-> k, m |-> m, z |-> z]) /\ rk' = [rk EXCEPT ![x] = << f, t >>] /\ UNCHANGED own
Re == \E d, s \in Reg, x \in Slots : own[s] # 0 /\ rk[x][1] = own[s]
        /\ Log([op |-> "re", d |-> d, s |-> s, x |-> x]) /\ own' = [own EXCEPT ![d] = rk[x][2]] /\ UNCHANGED rk
Wrong == \E d, s \in Reg, x \in Slots : own[s] \in Parties /\ rk[x][1] # 0 /\ rk[x][1] # own[s]
        /\ Log([op |-> "re", d |-> d, s |-> s, x |-> x]) /\ own' = [own EXCEPT ![d] = 9] /\ UNCHANGED rk
(* re-encrypt, change the source in place, and again with the same key *)
Again == \E d, d2, s \in Reg, x \in Slots : own[s] \in Parties /\ rk[x][1] = own[s] /\ d # s /\ d2 # s /\ d # d2
        /\ hist' = hist \o << [op |-> "re", d |-> d, s |-> s, x |-> x], [op |-> "flip", d |-> s], [op |-> "re", d |-> d2, s |-> s, x |-> x] >>
        /\ own' = [own EXCEPT ![d] = rk[x][2], ![d2] = rk[x][2]] /\ UNCHANGED << rk, done >>
Gate == \E g \in {"AND", "NOR", "ORYN", "NAND"}, d, a, b \in Reg : own[a] \in Parties /\ own[a] = own[b]
        /\ Log([op |-> "gate", g |-> g, d |-> d, a |-> a, s |-> b, p |-> own[a]]) /\ own' = [own EXCEPT ![d] = own[a]] /\ UNCHANGED rk
Stop == Len(hist) >= Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << hist, own, rk >>
More == Len(hist) < Depth
Next == \/ More /\ Enc
        \/ More /\ Enc
        \/ More /\ PkEnc
        \/ More /\ Cardinality({x \in Slots : rk[x][1] # 0}) < 2 /\ RKey
        \/ More /\ RandomElement(1 .. 4) = 1 /\ RKey
        \/ More /\ Re
        \/ More /\ Re
        \/ More /\ Re
        \/ More /\ Again
        \/ More /\ Wrong
        \/ More /\ Gate
        \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
