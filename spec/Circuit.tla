------------------------------ MODULE Circuit ------------------------------
(* A register machine over encrypted bits: what a user of the gate API does.
   Every register holds the phase of a ciphertext and, as ghost, the bit it
   is meant to carry.  Gates are modelled as the implementation computes
   them (linear form, bootstrap with bounded error); the multiplexer is the
   composition AND, NOT, AND, OR.                                          *)
EXTENDS Gates, FiniteSets

CONSTANTS Reg,            \* register names (a set of integers)
          E,              \* bound of the phase error of a ciphertext
          W               \* bound of the modulus switching error
None == -1
VARIABLES ph,             \* Reg -> phase or None
          bit             \* Reg -> BOOLEAN (meaningless while ph = None)
vars == << ph, bit >>

Set(r) == ph[r] # None
Bits == BOOLEAN
Cands(x) == UNION { { (Mu(DecB(x + w)) + e) % M : e \in -E .. E } : w \in {-W, 0, W} }
NearMu(b) == { (Mu(b) + e) % M : e \in -E .. E }

Init == ph = [r \in Reg |-> None] /\ bit = [r \in Reg |-> FALSE]

Put(d, p, b) == ph' = [ph EXCEPT ![d] = p] /\ bit' = [bit EXCEPT ![d] = b]

(* result phases are parameters, so that traces can bind them *)
Enc(d, b, p)   == NearBit(p, b, E) /\ Put(d, p, b)
Const(d, b, p) == Dist(p, Mu(b), M) <= 1 /\ Put(d, p, b)
Not(d, a, p)   == Set(a) /\ Dist(p, -ph[a], M) <= 1 /\ Put(d, p, ~bit[a])
Copy(d, a, p)  == Set(a) /\ p = ph[a] /\ Put(d, p, bit[a])
Gate(g, d, a, b, p) ==
  /\ Set(a) /\ Set(b)
  /\ BootOK(Lin(g, ph[a], ph[b]), p, E, W)
  /\ Put(d, p, Truth(g, bit[a], bit[b]))
(* the intermediate wires of the multiplexer are existential *)
Mux(d, a, b, c, p) ==
  /\ Set(a) /\ Set(b) /\ Set(c)
  /\ \E x \in Cands(Lin("AND", ph[a], ph[b])) :
       \E y \in Cands(Lin("AND", -ph[a], ph[c])) :
          BootOK(Lin("OR", x, y), p, E, W)
  /\ Put(d, p, TruthMux(bit[a], bit[b], bit[c]))

EncAny   == \E d \in Reg, b \in Bits : \E p \in NearMu(b) : Enc(d, b, p)
ConstAny == \E d \in Reg, b \in Bits : Const(d, b, Mu(b))
NotAny   == \E d, a \in Reg : Set(a) /\ Not(d, a, (-ph[a]) % M)
CopyAny  == \E d, a \in Reg : Set(a) /\ Copy(d, a, ph[a])
GateAny  == \E g \in Gate2, d, a, b \in Reg : Set(a) /\ Set(b) /\
              \E p \in Cands(Lin(g, ph[a], ph[b])) : Gate(g, d, a, b, p)
MuxAny   == \E d, a, b, c \in Reg : Set(a) /\ Set(b) /\ Set(c) /\
              \E p \in NearMu(TRUE) \cup NearMu(FALSE) : Mux(d, a, b, c, p)

Next == EncAny \/ ConstAny \/ NotAny \/ CopyAny \/ GateAny \/ MuxAny
Spec == Init /\ [][Next]_vars

TypeOK == /\ ph \in [Reg -> {None} \cup 0 .. M - 1]
          /\ bit \in [Reg -> BOOLEAN]
(* the guarantee: every wire decrypts to the bit of the plaintext circuit *)
Correct == \A r \in Reg : Set(r) => DecB(ph[r]) = bit[r]
(* noise never accumulates *)
Bounded == \A r \in Reg : Set(r) => NearBit(ph[r], bit[r], E + 1)
=============================================================================
