-------------------------------- MODULE Ring --------------------------------
(* The result ring of an evaluator.  A ring call writes its value to the next
   of K slots and returns the slot (a handle); a copying call uses a slot for
   its computation but returns a new object; an assigning call writes to a
   register or to a live handle and touches no slot otherwise; Reset moves
   the ring to its start and ends the life of outstanding handles.  Sources
   are registers or live handles; every result is value-dependent on its
   source, so that reading a dead slot shows.  Promise: a handle reads its
   value until Life further ring calls have been made.                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, Life, Evs, Reg, MaxOps, V
VARIABLES slot, idx, reg, hs, n
(* hs: sequence of handles [ev, slot, age, val, live] *)
vars == << slot, idx, reg, hs, n >>
Init == /\ slot = [e \in Evs |-> [i \in 0 .. K - 1 |-> 0]] /\ idx = [e \in Evs |-> 0]
        /\ reg = [r \in Reg |-> [now |-> 1, want |-> 1]] /\ hs = <<>> /\ n = 0
F(x, k) == (x + k) % V                  \* the function computed
(* sources: what a read yields now, and what it must yield *)
Srcs == {[now |-> reg[r].now, want |-> reg[r].want] : r \in Reg}
          \cup {[now |-> slot[hs[i].ev][hs[i].slot], want |-> hs[i].val] : i \in {j \in 1 .. Len(hs) : hs[j].live}}
Aged(e) == [i \in 1 .. Len(hs) |-> IF hs[i].ev # e THEN hs[i]
              ELSE [hs[i] EXCEPT !.age = @ + 1, !.live = hs[i].live /\ hs[i].age + 1 < Life]]
Tick == n' = n + 1
Ring1(e, s, k) ==
  /\ slot' = [slot EXCEPT ![e][idx[e]] = F(s.now, k)] /\ idx' = [idx EXCEPT ![e] = (@ + 1) % K]
  /\ hs' = Append(Aged(e), [ev |-> e, slot |-> idx[e], age |-> 0, val |-> F(s.want, k), live |-> TRUE])
  /\ UNCHANGED reg /\ Tick
CopyCall(e, s, k, d) ==
  /\ slot' = [slot EXCEPT ![e][idx[e]] = F(s.now, k)] /\ idx' = [idx EXCEPT ![e] = (@ + 1) % K]
  /\ hs' = Aged(e) /\ reg' = [reg EXCEPT ![d] = [now |-> F(s.now, k), want |-> F(s.want, k)]] /\ Tick
AssignR(s, k, d) == reg' = [reg EXCEPT ![d] = [now |-> F(s.now, k), want |-> F(s.want, k)]] /\ UNCHANGED << slot, idx, hs >> /\ Tick
AssignH(s, k, i) == /\ hs[i].live /\ slot' = [slot EXCEPT ![hs[i].ev][hs[i].slot] = F(s.now, k)]
                    /\ hs' = [hs EXCEPT ![i].val = F(s.want, k)] /\ UNCHANGED << idx, reg >> /\ Tick
Reset(e) == /\ idx' = [idx EXCEPT ![e] = 0] /\ UNCHANGED << slot, reg >> /\ Tick
            /\ hs' = [i \in 1 .. Len(hs) |-> IF hs[i].ev = e THEN [hs[i] EXCEPT !.live = FALSE] ELSE hs[i]]
Ks == {0, 1}
Next == /\ n < MaxOps
        /\ \/ \E e \in Evs, s \in Srcs, k \in Ks : Ring1(e, s, k) \/ \E d \in Reg : CopyCall(e, s, k, d)
           \/ \E s \in Srcs, k \in Ks : (\E d \in Reg : AssignR(s, k, d)) \/ (\E i \in 1 .. Len(hs) : AssignH(s, k, i))
           \/ \E e \in Evs : Reset(e)
Spec == Init /\ [][Next]_vars
Handles == \A i \in 1 .. Len(hs) : hs[i].live => slot[hs[i].ev][hs[i].slot] = hs[i].val
Copies == \A r \in Reg : reg[r].now = reg[r].want
=============================================================================
