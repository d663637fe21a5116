----------------------------- MODULE ConcurGen -----------------------------
(* Plans of rounds.  In a round, 2 to Most goroutines run at the same time,
   each with its own evaluator: one that exists (perhaps used by another
   goroutine in an earlier round), a new one, or one it derives from an
   existing evaluator, which another goroutine may be using at that moment.
   Operations read shared ciphertexts 1-4 (bits), 5-8 (messages), shared ring
   ciphertexts, tables and keys.                                            *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS Rounds, Most, OpsMost, Heavy
VARIABLES hist, cur, base, made, done
vars == << hist, cur, base, made, done >>
Init == hist = <<>> /\ cur = <<>> /\ base = 1 /\ made = 1 /\ done = FALSE
Used == { cur[i].e : i \in DOMAIN cur }
Join == /\ Len(cur) < Most
        /\ \/ \E e \in (1 .. base) \ Used : cur' = Append(cur, [e |-> e, from |-> 0, ops |-> <<>>]) /\ made' = made
           \/ /\ made < 8 /\ cur' = Append(cur, [e |-> made + 1, from |-> -1, ops |-> <<>>]) /\ made' = made + 1
           \/ \E f \in 1 .. base : made < 8 /\ cur' = Append(cur, [e |-> made + 1, from |-> f, ops |-> <<>>]) /\ made' = made + 1
        /\ UNCHANGED << hist, base, done >>
Bits == 1 .. 4
Msgs == 5 .. 8
Funs == {"id", "inc", "rev", "neg"}
Op(i, r) == /\ cur' = [cur EXCEPT ![i].ops = Append(@, r)] /\ UNCHANGED << hist, base, made, done >>
Free == { i \in DOMAIN cur : Len(cur[i].ops) < OpsMost }
Boot == \E i \in Free, o \in {"boot", "bootassign", "trot"}, a \in Bits : Op(i, [o |-> o, a |-> a])
Prep == \E i \in Free, o \in {"prep", "prep", "batch"}, g \in {"AND", "OR", "NAND"}, a, b \in Bits : Op(i, [o |-> o, g |-> g, a |-> a, b |-> b])
Pbs == \E i \in Free, o \in {"func", "funcassign", "lut", "lutassign", "luttemp", "rot"}, a \in Msgs, f \in Funs : Op(i, [o |-> o, a |-> a, f |-> f])
Nest == \E i \in Free, a \in Msgs, f \in Funs, b \in Bits : Op(i, [o |-> "nest", a |-> a, f |-> f, b |-> b])
RingOp == \E i \in Free, o \in {"cmux", "ext", "text", "tcmux"}, a, b \in 1 .. 3, x \in 0 .. 5 : Op(i, [o |-> o, a |-> a, b |-> b, x |-> x])
Poly == \E i \in Free, o \in {"mul", "four", "ses", "ks", "ksassign", "re", "dec", "decr"}, a \in 1 .. 3 : Op(i, [o |-> o, a |-> a])
Table == \E i \in Free, o \in {"lutgen", "lutshare", "lutassigngen", "lutcustom", "lutfull"}, f \in Funs : Op(i, [o |-> o, f |-> f])
Enc == \E i \in Free, o \in {"enc", "encm", "encr", "encpk", "enc1"}, x \in 0 .. 3 : Op(i, [o |-> o, x |-> x])
Key == \E i \in Free, o \in Heavy : Op(i, [o |-> o])
End == /\ Len(cur) >= 2 /\ (\A i \in DOMAIN cur : cur[i].ops # <<>>)
       /\ hist' = Append(hist, cur) /\ cur' = <<>> /\ base' = made /\ UNCHANGED << made, done >>
Stop == Len(hist) = Rounds /\ ~done /\ done' = TRUE /\ UNCHANGED << hist, cur, base, made >>
More == Len(hist) < Rounds
Full == Len(cur) >= 2 /\ Free = {}
Next == \/ More /\ Join
        \/ More /\ Len(cur) >= 2 /\ Boot
        \/ More /\ Len(cur) >= 2 /\ Prep
        \/ More /\ Len(cur) >= 2 /\ Pbs
        \/ More /\ Len(cur) >= 2 /\ Pbs
        \/ More /\ Len(cur) >= 2 /\ Nest
        \/ More /\ Len(cur) >= 2 /\ RingOp
        \/ More /\ Len(cur) >= 2 /\ Poly
        \/ More /\ Len(cur) >= 2 /\ Table
        \/ More /\ Len(cur) >= 2 /\ Enc
        \/ More /\ Len(cur) >= 2 /\ Key
        \/ More /\ Full /\ End
        \/ More /\ (\E i \in DOMAIN cur : Len(cur[i].ops) = OpsMost) /\ End
        \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
