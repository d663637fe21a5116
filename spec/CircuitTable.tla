--------------------------- MODULE CircuitTable ----------------------------
(* Enumerates single gates exhaustively: every gate, every assignment of
   bits, every choice of operands among Ops (equal operands included).     *)
EXTENDS Circuit, Sequences, TLC, Json
CONSTANTS Pairs, Triples
VARIABLE hist
AInit == /\ bit \in [Reg -> BOOLEAN]
         /\ bit[4] = FALSE /\ bit[5] = FALSE
         /\ ph = [r \in Reg |-> IF r <= 3 THEN Mu(bit[r]) ELSE None]
         /\ hist = [i \in 1..3 |-> [op |-> "enc", d |-> i, b |-> bit[i], sh |-> 0]]
(* the same from unencrypted constants *)
CInit == /\ bit \in [Reg -> BOOLEAN]
         /\ bit[4] = FALSE /\ bit[5] = FALSE
         /\ ph = [r \in Reg |-> IF r <= 3 THEN Mu(bit[r]) ELSE None]
         /\ hist = [i \in 1..3 |-> [op |-> "const", d |-> i, b |-> bit[i]]]
ANext == /\ Len(hist) = 3
         /\ \/ \E g \in Gate2, s \in Pairs :
                 Gate(g, 4, s[1], s[2], Mu(Truth(g, bit[s[1]], bit[s[2]]))) /\ hist' = Append(hist, [op |-> g, d |-> 4, s |-> s])
            \/ \E s \in Triples :
                 Mux(4, s[1], s[2], s[3], Mu(TruthMux(bit[s[1]], bit[s[2]], bit[s[3]]))) /\ hist' = Append(hist, [op |-> "MUX", d |-> 4, s |-> s])
ASpec == AInit /\ [][ANext]_<< ph, bit, hist >>
CSpec == CInit /\ [][ANext]_<< ph, bit, hist >>
Emit == Len(hist) = 4 => PrintT(ToJson(hist))
PairsPlain == { <<1, 2>> }
TriplesPlain == { <<1, 2, 3>> }
PairsAll == (1..3) \X (1..3)
TriplesAll == (1..3) \X (1..3) \X (1..3)
=============================================================================
