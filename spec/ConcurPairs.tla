---------------------------- MODULE ConcurPairs ----------------------------
(* Every pair of operation kinds, run at the same time by an evaluator and by
   one derived from it.                                                     *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES i, j, done
Kinds == << [o |-> "boot", a |-> 1], [o |-> "bootassign", a |-> 2], [o |-> "trot", a |-> 3],
            [o |-> "prep", g |-> "AND", a |-> 1, b |-> 2], [o |-> "batch", g |-> "OR", a |-> 3, b |-> 4],
            [o |-> "func", a |-> 5, f |-> "inc"], [o |-> "lut", a |-> 6, f |-> "rev"], [o |-> "luttemp", a |-> 7, f |-> "neg"],
            [o |-> "rot", a |-> 8, f |-> "id"], [o |-> "nest", a |-> 6, f |-> "inc", b |-> 2],
            [o |-> "cmux", a |-> 1, b |-> 2, x |-> 0], [o |-> "ext", a |-> 2, b |-> 1, x |-> 1], [o |-> "text", a |-> 3, b |-> 1, x |-> 2],
            [o |-> "tcmux", a |-> 1, b |-> 3, x |-> 3], [o |-> "mul", a |-> 1], [o |-> "four", a |-> 2], [o |-> "ses", a |-> 1],
            [o |-> "ks", a |-> 1], [o |-> "ksassign", a |-> 2], [o |-> "re", a |-> 3], [o |-> "dec", a |-> 1], [o |-> "decr", a |-> 2],
            [o |-> "lutgen", f |-> "inc"], [o |-> "lutshare", f |-> "rev"], [o |-> "lutassigngen", f |-> "neg"],
            [o |-> "lutcustom", f |-> "inc"], [o |-> "lutfull", f |-> "rev"],
            [o |-> "enc", x |-> 1], [o |-> "encm", x |-> 2], [o |-> "enc1", x |-> 0], [o |-> "encr", x |-> 1], [o |-> "encpk", x |-> 1],
            [o |-> "keygen"], [o |-> "pkgen"], [o |-> "rkgen"], [o |-> "ckgen"] >>
Init == i \in DOMAIN Kinds /\ j \in i .. Len(Kinds) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED << i, j >>
Spec == Init /\ [][Next]_<< i, j, done >>
Emit == done => PrintT(ToJson([i |-> i, j |-> j, round |-> << [e |-> 1, from |-> 0, ops |-> << Kinds[i] >>], [e |-> 2, from |-> 1, ops |-> << Kinds[j] >>] >>]))
=============================================================================
