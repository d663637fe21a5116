-------------------------------- MODULE Heap --------------------------------
(* Objects over memory cells.  A functional call allocates a cell for its
   result; an assigning call writes the cell of its output.  Every call's
   result depends on its operands.  Share = TRUE models a function whose
   result shares its operand's memory, Scratch = TRUE one whose result is an
   internal buffer.  Promise: every object reads the value it was last given. *)
EXTENDS Integers, FiniteSets
CONSTANTS Obj, MaxCells, V, Share, Scratch
VARIABLES cell, mem, val, used
vars == << cell, mem, val, used >>
F(x, y) == (x + y + 1) % V
Init == /\ cell = [o \in Obj |-> o] /\ mem = [c \in 1 .. MaxCells |-> 0] /\ val = [o \in Obj |-> 0] /\ used = Cardinality(Obj)
Put(d, c, x, w) == cell' = [cell EXCEPT ![d] = c] /\ mem' = [mem EXCEPT ![c] = x] /\ val' = [val EXCEPT ![d] = w]
Free == {c \in 1 .. MaxCells - 1 : \A o \in Obj : cell[o] # c}
(* d := f(a, b), a new object *)
Func(d, a, b) ==
  LET c == CASE Share -> cell[a]
             [] Scratch -> MaxCells
             [] OTHER -> CHOOSE x \in Free : \A y \in Free : x <= y
  IN Put(d, c, F(mem[cell[a]], mem[cell[b]]), F(val[a], val[b])) /\ UNCHANGED used
Asgn(d, a, b) == Put(d, cell[d], F(mem[cell[a]], mem[cell[b]]), F(val[a], val[b])) /\ UNCHANGED used
Next == \E d, a, b \in Obj : Func(d, a, b) \/ Asgn(d, a, b)
Spec == Init /\ [][Next]_vars
Frame == \A o \in Obj : mem[cell[o]] = val[o]
Disjoint == \A o, p \in Obj : o # p => cell[o] # cell[p]
=============================================================================
