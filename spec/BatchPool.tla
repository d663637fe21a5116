----------------------------- MODULE BatchPool ------------------------------
(* Batches run by one goroutine per element over a shared pool of evaluators.
   An evaluator's buffer is overwritten by each use; Copy says whether a
   worker hands out a copy of it.  Values: element (b, i) must yield Val(b, i).
   Batches may overlap in any way; a finished batch's results are read for
   ever after.                                                              *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Batches, Size, Copy, MaxEv
Elem == {<< b, i >> : b \in Batches, i \in 1 .. Size}
Val(x) == x[1] * 100 + x[2]
VARIABLES st,      \* element -> idle | run | comp | half | done
          ev,      \* element -> evaluator in use (0: none)
          pool,    \* evaluators available
          nev,     \* evaluators created
          buf,     \* evaluator -> value in its buffer
          res,     \* element -> <<"val", v>> or <<"buf", evaluator>> or <<"none">>
          bst      \* batch -> new | running | returned
vars == << st, ev, pool, nev, buf, res, bst >>
Evs == 1 .. MaxEv
Init == /\ st = [x \in Elem |-> "idle"] /\ ev = [x \in Elem |-> 0] /\ pool = {} /\ nev = 0
        /\ buf = [e \in Evs |-> 0] /\ res = [x \in Elem |-> <<"none">>] /\ bst = [b \in Batches |-> "new"]
Start(b) == /\ bst[b] = "new" /\ bst' = [bst EXCEPT ![b] = "running"]
            /\ st' = [x \in Elem |-> IF x[1] = b THEN "run" ELSE st[x]]
            /\ UNCHANGED << ev, pool, nev, buf, res >>
Get(x) == /\ st[x] = "run" /\ st' = [st EXCEPT ![x] = "comp"]
          /\ \/ \E e \in pool : ev' = [ev EXCEPT ![x] = e] /\ pool' = pool \ {e} /\ nev' = nev
             \/ nev < MaxEv /\ nev' = nev + 1 /\ ev' = [ev EXCEPT ![x] = nev + 1] /\ UNCHANGED pool
          /\ UNCHANGED << buf, res, bst >>
(* a computation clobbers the buffer before its value is there *)
Half(x) == st[x] = "comp" /\ st' = [st EXCEPT ![x] = "half"] /\ buf' = [buf EXCEPT ![ev[x]] = -1] /\ UNCHANGED << ev, pool, nev, res, bst >>
Fin(x) == st[x] = "half" /\ st' = [st EXCEPT ![x] = "out"] /\ buf' = [buf EXCEPT ![ev[x]] = Val(x)] /\ UNCHANGED << ev, pool, nev, res, bst >>
Out(x) == /\ st[x] = "out" /\ st' = [st EXCEPT ![x] = "put"]
          /\ res' = [res EXCEPT ![x] = IF Copy THEN << "val", buf[ev[x]] >> ELSE << "buf", ev[x] >>]
          /\ UNCHANGED << ev, pool, nev, buf, bst >>
PutBack(x) == st[x] = "put" /\ st' = [st EXCEPT ![x] = "done"] /\ pool' = pool \cup {ev[x]} /\ ev' = [ev EXCEPT ![x] = 0] /\ UNCHANGED << nev, buf, res, bst >>
Return(b) == /\ bst[b] = "running" /\ \A x \in Elem : x[1] = b => st[x] = "done"
             /\ bst' = [bst EXCEPT ![b] = "returned"] /\ UNCHANGED << st, ev, pool, nev, buf, res >>
(* the garbage collector may empty the pool *)
Drop == pool # {} /\ pool' = {} /\ UNCHANGED << st, ev, nev, buf, res, bst >>
Next == \/ \E b \in Batches : Start(b) \/ Return(b)
        \/ \E x \in Elem : Get(x) \/ Half(x) \/ Fin(x) \/ Out(x) \/ PutBack(x)
        \/ Drop
Spec == Init /\ [][Next]_vars
Read(x) == IF res[x][1] = "buf" THEN buf[res[x][2]] ELSE res[x][2]
Correct == \A x \in Elem : bst[x[1]] = "returned" => res[x] # <<"none">> /\ Read(x) = Val(x)
Exclusive == \A x, y \in Elem : x # y /\ ev[x] # 0 => ev[x] # ev[y]
PoolFree == \A x \in Elem : ev[x] # 0 => ev[x] \notin pool
=============================================================================
