------------------------------- MODULE Reenc -------------------------------
(* Proxy re-encryption as a protocol between parties.  A ciphertext has a
   mask under one party's key and a residue: the pairs (mask, key) by which
   its phase differs from message plus small error.  Re-encrypting with a key
   generated from f to t subtracts the current mask's product with f's key and
   adds a new mask under t: if the ciphertext was under f nothing is left over,
   otherwise the residue grows by two terms and never shrinks again, as every
   mask is new.  Errors add up hop by hop.  The arithmetic of one hop is in
   KeySwitch.                                                              *)
EXTENDS Integers, FiniteSets
CONSTANTS Parties, Reg, Hops, Mode      \* "ok", "bidir", "stay"
VARIABLES ct, rks, log
vars == << ct, rks, log >>
None == [own |-> 0, bit |-> FALSE, res |-> 0, err |-> 0, org |-> 0, path |-> {}]
Init == ct = [r \in Reg |-> None] /\ rks = {} /\ log = {}
Enc(d, p, b) == ct' = [ct EXCEPT ![d] = [own |-> p, bit |-> b, res |-> 0, err |-> 0, org |-> p, path |-> {}]] /\ UNCHANGED << rks, log >>
RKey(f, t) == f # t /\ rks' = rks \cup {<< f, t >>} /\ UNCHANGED << ct, log >>
Fits(c, k) == c.own = k[1] \/ (Mode = "bidir" /\ c.own = k[2])
Re(d, s, k) == /\ ct[s].own # 0 /\ ct[s].err < Hops /\ ct[s].res < 2
               /\ ct' = [ct EXCEPT ![d] = [own |-> IF Mode = "stay" THEN ct[s].own ELSE IF Mode = "bidir" /\ ct[s].own = k[2] THEN k[1] ELSE k[2], bit |-> ct[s].bit,
                                           res |-> ct[s].res + (IF Fits(ct[s], k) THEN 0 ELSE 2), err |-> ct[s].err + 1,
                                           org |-> ct[s].org, path |-> ct[s].path \cup {k}]]
               /\ UNCHANGED << rks, log >>
Next == (\E d \in Reg, p \in Parties, b \in BOOLEAN : Enc(d, p, b)) \/ (\E f, t \in Parties : RKey(f, t))
        \/ (\E d, s \in Reg : \E k \in rks : Re(d, s, k))
Spec == Init /\ [][Next]_vars
Readable(c, p) == c.own = p /\ c.res = 0
(* whoever reads a ciphertext was delegated to along the keys applied to it *)
RECURSIVE Reach(_, _)
Reach(S, ks) == LET n == S \cup {k[2] : k \in {x \in ks : x[1] \in S}} IN IF n = S THEN S ELSE Reach(n, ks)
Delegated == \A r \in Reg : ct[r].own # 0 => \A p \in Parties : Readable(ct[r], p) => p \in Reach({ct[r].org}, ct[r].path)
(* one delegation moves the ciphertext: its former owner cannot read it     *)
Moves == \A r \in Reg : Cardinality(ct[r].path) = 1 /\ ct[r].err = 1 /\ ct[r].own # 0 /\ ct[r].res = 0 => ~Readable(ct[r], ct[r].org)
Sane == \A r \in Reg : ct[r].err <= Hops
=============================================================================
