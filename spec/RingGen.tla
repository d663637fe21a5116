------------------------------ MODULE RingGen -------------------------------
(* Histories over registers (1 .. 4), evaluators and ring handles (10 + i);
   mirrors Ring, with the calls named.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Evs, Reg, Depth, Life, Mod, Shapes
VARIABLES hist, set, hs, done, dense   \* set: registers holding a value
vars == << hist, set, hs, done, dense >>
Funs == {"id", "inc", "rnd", "rev", "neg"}
(* dense histories keep the ring full and feed its slots back *)
Init == hist = <<>> /\ set = {} /\ hs = <<>> /\ done = FALSE /\ dense \in BOOLEAN
Log(r) == hist' = Append(hist, r) /\ UNCHANGED << done, dense >>
LiveH == {i \in 1 .. Len(hs) : hs[i].live}
Srcs == set \cup {10 + i : i \in LiveH}
Aged(e) == [i \in 1 .. Len(hs) |-> IF hs[i].ev # e THEN hs[i]
              ELSE [hs[i] EXCEPT !.age = @ + 1, !.live = hs[i].live /\ hs[i].age + 1 < Life]]
Enc == \E d \in Reg, x \in 0 .. Mod - 1, sh \in Shapes : Log([op |-> "enc", d |-> d, x |-> x, sh |-> sh]) /\ set' = set \cup {d} /\ UNCHANGED hs
Junk == \E d \in Reg : Log([op |-> "junk", d |-> d]) /\ set' = set \ {d} /\ UNCHANGED hs
RingCall == \E e \in Evs, s \in Srcs, f \in Funs, o \in {"boot", "luttemp"} :
              Log([op |-> o, e |-> e, s |-> s, f |-> f]) /\ hs' = Append(Aged(e), [ev |-> e, age |-> 0, live |-> TRUE]) /\ UNCHANGED set
RingCall2 == RingCall
(* the source is the very slot the call is about to write *)
RingOwn == \E i \in LiveH, f \in Funs, o \in {"boot", "luttemp"} : hs[i].age = Life - 1 /\
              Log([op |-> o, e |-> hs[i].ev, s |-> 10 + i, f |-> f]) /\ hs' = Append(Aged(hs[i].ev), [ev |-> hs[i].ev, age |-> 0, live |-> TRUE]) /\ UNCHANGED set
CopyOwn == \E i \in LiveH, f \in Funs, o \in {"lut", "func"}, d \in Reg : hs[i].age = Life - 1 /\
              Log([op |-> o, e |-> hs[i].ev, s |-> 10 + i, f |-> f, d |-> d]) /\ hs' = Aged(hs[i].ev) /\ set' = set \cup {d}
(* input and output of an assigning call are one object *)
SelfOwn == \E e \in Evs, s \in Srcs, f \in Funs, o \in {"bootassign", "lutassign", "funcassign"} :
              Log([op |-> o, e |-> e, s |-> s, f |-> f, d |-> s]) /\ UNCHANGED << set, hs >>
CopyCall == \E e \in Evs, s \in Srcs, f \in Funs, o \in {"lut", "func"}, d \in Reg :
              Log([op |-> o, e |-> e, s |-> s, f |-> f, d |-> d]) /\ hs' = Aged(e) /\ set' = set \cup {d}
AssignR == \E e \in Evs, s \in Srcs, f \in Funs, o \in {"bootassign", "lutassign", "funcassign"}, d \in Reg :
              Log([op |-> o, e |-> e, s |-> s, f |-> f, d |-> d]) /\ set' = set \cup {d} /\ UNCHANGED hs
AssignH == \E e \in Evs, s \in Srcs, f \in Funs, o \in {"bootassign", "lutassign", "funcassign"}, i \in LiveH :
              Log([op |-> o, e |-> e, s |-> s, f |-> f, d |-> 10 + i]) /\ UNCHANGED << set, hs >>
Reset == \E e \in Evs : Log([op |-> "resetbuf", e |-> e]) /\ UNCHANGED set
           /\ hs' = [i \in 1 .. Len(hs) |-> IF hs[i].ev = e THEN [hs[i] EXCEPT !.live = FALSE] ELSE hs[i]]
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << hist, set, hs, dense >>
More == Len(hist) < Depth
Few(e) == Cardinality({i \in LiveH : hs[i].ev = e}) < Life - 1
Next == IF Len(hist) < 2 THEN Enc
        ELSE IF dense /\ More THEN
               IF \E e \in Evs : Few(e) THEN \E e \in {x \in Evs : Few(x)}, s \in Srcs, f \in Funs, o \in {"boot", "luttemp"} :
                    Log([op |-> o, e |-> e, s |-> s, f |-> f]) /\ hs' = Append(Aged(e), [ev |-> e, age |-> 0, live |-> TRUE]) /\ UNCHANGED set
               ELSE RingOwn \/ RingCall \/ CopyOwn \/ SelfOwn
        ELSE \/ More /\ Enc
             \/ More /\ Junk
             \/ More /\ RingCall
             \/ More /\ RingCall2
             \/ More /\ CopyCall
             \/ More /\ RingOwn
             \/ More /\ CopyOwn
             \/ More /\ SelfOwn
             \/ More /\ AssignR
             \/ More /\ AssignH
             \/ More /\ Len(hist) % 4 = 3 /\ Reset
             \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
