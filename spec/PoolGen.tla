------------------------------ MODULE PoolGen -------------------------------
(* Histories over the scratch pools of polynomial evaluators ("rot", "trl")
   and of a buffer manager ("brot", "btrl"): requests, whose content the
   caller sets or the library computes, and resets.                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Owners, Depth, Life
VARIABLES hist, hs, done
vars == << hist, hs, done >>
Pools == {"rot", "trl", "brot", "btrl"}
Init == hist = <<>> /\ hs = <<>> /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Aged(p, o) == [i \in 1 .. Len(hs) |-> IF hs[i].p # p \/ hs[i].o # o THEN hs[i]
              ELSE [hs[i] EXCEPT !.age = @ + 1, !.live = hs[i].live /\ hs[i].age + 1 < Life]]
New(p, o) == hs' = Append(Aged(p, o), [p |-> p, o |-> o, age |-> 0, live |-> TRUE])
Get == \E p \in Pools, o \in Owners : Log([op |-> "get", p |-> p, o |-> o]) /\ New(p, o)
Get2 == Get
(* a rotation reads a live buffer that its own request does not reclaim *)
Rot == \E o \in Owners, k \in {0, 1, 7, 511, 512, 513, 1023, -1, -512, 1024, 5000} :
         \E i \in {0} \cup {j \in 1 .. Len(hs) : hs[j].live /\ hs[j].p \in {"rot", "brot"} /\ (hs[j].o # o \/ hs[j].p # "rot" \/ hs[j].age < Life - 1)} :
           Log([op |-> "rotk", p |-> "rot", o |-> o, k |-> k, i |-> i]) /\ New("rot", o)
Rot2 == Rot
Clear == \E i \in 1 .. Len(hs) : hs[i].live /\ hs[i].p \in {"trl", "btrl"} /\ Log([op |-> "clear", p |-> hs[i].p, o |-> hs[i].o, i |-> i]) /\ UNCHANGED hs
(* library computations on the ring ciphertexts of owner o use its pools freely *)
Calc == \E o \in Owners, c \in {"extprod", "cmux", "blindrot"} : Log([op |-> c, p |-> "trl", o |-> o]) /\
          hs' = Append([i \in 1 .. Len(hs) |-> IF hs[i].o = o /\ hs[i].p \in {"rot", "trl"} THEN [hs[i] EXCEPT !.live = FALSE] ELSE hs[i]],
                       [p |-> "trl", o |-> o, age |-> 0, live |-> TRUE])
Reset == \E p \in Pools, o \in Owners : Log([op |-> "rst", p |-> p, o |-> o]) /\
          hs' = [i \in 1 .. Len(hs) |-> IF hs[i].o = o /\ (hs[i].p = p \/ (p = "brot" /\ hs[i].p = "btrl") \/ (p = "btrl" /\ hs[i].p = "brot"))
                                        THEN [hs[i] EXCEPT !.live = FALSE] ELSE hs[i]]
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << hist, hs >>
More == Len(hist) < Depth
Next == \/ More /\ Get
        \/ More /\ Get2
        \/ More /\ Rot
        \/ More /\ Rot2
        \/ More /\ Clear
        \/ More /\ Len(hist) % 5 = 4 /\ Calc
        \/ More /\ Len(hist) % 6 = 5 /\ Reset
        \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
