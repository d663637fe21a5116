-------------------------------- MODULE PBS ---------------------------------
(* Programmable bootstrapping over a small torus Z_M.  A register holds a
   phase, its message modulus and, as ghost, the message.  A table is laid
   out as in LutTable; a bootstrap switches the phase to 2N positions (with
   an error of up to W positions), reads the table there and adds a fresh
   error of up to E.  The position of a negated coefficient is half a turn on. *)
EXTENDS Integers, Sequences, LutTable
CONSTANTS M, N, Moduli, Reg, E, W
VARIABLES ph, md, msg
vars == << ph, md, msg >>
None == -1
H == M \div 2
Enc(x, m) == ((x % m) * H) \div m
Dec(p, m) == LET s == H \div m IN (((p + s \div 2) % M) \div s) % m
(* coefficient j of the table of ys (ys[x+1] is the output for x) *)
Coef(ys, mi, mo, j) == LET x == NearestX(j, mi, N)
                       IN IF x < mi THEN Enc(ys[x + 1], mo) ELSE -Enc(ys[1], mo)
At(ys, mi, mo, j) == LET k == j % (2 * N) IN IF k < N THEN Coef(ys, mi, mo, k) ELSE -Coef(ys, mi, mo, k - N)
Pos(p) == ((p * 2 * N + H) \div M) % (2 * N)
Funs(mi, mo) == [1 .. mi -> 0 .. mo - 1]

Init == ph = [r \in Reg |-> None] /\ md = [r \in Reg |-> 1] /\ msg = [r \in Reg |-> 0]
Put(d, p, m, x) == ph' = [ph EXCEPT ![d] = p % M] /\ md' = [md EXCEPT ![d] = m] /\ msg' = [msg EXCEPT ![d] = x % m]
Encrypt(d, m, x, e) == Put(d, Enc(x, m) + e, m, x)
Boot(d, s, ys, mo, w, e) ==
  /\ ph[s] # None
  /\ Put(d, At(ys, md[s], mo, Pos(ph[s]) + w) + e, mo, ys[msg[s] + 1])
Next == \/ \E d \in Reg, m \in Moduli, e \in -E .. E : \E x \in 0 .. m - 1 : Encrypt(d, m, x, e)
        \/ \E d, s \in Reg, mo \in Moduli, w \in -W .. W, e \in {-E, 0, E} :
              ph[s] # None /\ \E ys \in Funs(md[s], mo) : Boot(d, s, ys, mo, w, e)
Spec == Init /\ [][Next]_vars
Correct == \A r \in Reg : ph[r] # None => Dec(ph[r], md[r]) = msg[r]
Refreshed == \A r \in Reg : ph[r] # None => Dist(ph[r], Enc(msg[r], md[r]), M) <= E
=============================================================================
