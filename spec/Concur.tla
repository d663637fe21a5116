------------------------------- MODULE Concur -------------------------------
(* Goroutines with private evaluators.  An evaluator is a scratch area plus
   read-only tables (transform roots).  One is created anew or derived from an
   existing one, even while that one is in use: the derived evaluator shares
   the tables but must get its own scratch area.  An operation loads its
   shared input into the scratch area, works on it in several steps that
   consult the tables, and stores the result.  Whatever the interleaving, the
   result is that of the operation running alone.                          *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Evals, Inputs, Ops,
          ShareScratch,  \* TRUE: deriving reuses the scratch area (bad)
          LazyTables,    \* TRUE: tables are built at first use (bad)
          Exclusive      \* FALSE: one evaluator in several goroutines (misuse)
VARIABLES made, area, tabs, scr, ready, pc, ev, x, left, out
vars == << made, area, tabs, scr, ready, pc, ev, x, left, out >>
F(v) == (v * 3 + 1) % 16
Init == /\ made = {1} /\ area = [e \in Evals |-> e] /\ tabs = [e \in Evals |-> e]
        /\ scr = [e \in Evals |-> 0] /\ ready = [e \in Evals |-> ~LazyTables]
        /\ pc = [t \in Threads |-> "idle"] /\ ev = [t \in Threads |-> 0] /\ x = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> Ops] /\ out = [t \in Threads |-> << 0, F(0) >>]
New(d) == d \notin made /\ made' = made \cup {d} /\ UNCHANGED << area, tabs, scr, ready, pc, ev, x, left, out >>
Derive(e, d) == /\ e \in made /\ d \notin made /\ made' = made \cup {d}
                /\ area' = [area EXCEPT ![d] = IF ShareScratch THEN area[e] ELSE d]
                /\ tabs' = [tabs EXCEPT ![d] = tabs[e]]
                /\ UNCHANGED << scr, ready, pc, ev, x, left, out >>
Begin(t, e, v) == /\ pc[t] = "idle" /\ left[t] > 0 /\ e \in made /\ (Exclusive => \A u \in Threads : ev[u] # e)
                  /\ pc' = [pc EXCEPT ![t] = "load"] /\ ev' = [ev EXCEPT ![t] = e] /\ x' = [x EXCEPT ![t] = v]
                  /\ left' = [left EXCEPT ![t] = @ - 1]
                  /\ UNCHANGED << made, area, tabs, scr, ready, out >>
At(t, p, q) == pc[t] = p /\ pc' = [pc EXCEPT ![t] = q]
A(t) == area[ev[t]]
Load(t) == At(t, "load", "mul") /\ scr' = [scr EXCEPT ![A(t)] = x[t]] /\ UNCHANGED << made, area, tabs, ready, ev, x, left, out >>
\* consulting tables that another goroutine is still building gives junk
Mul(t) == /\ At(t, "mul", "add")
          /\ scr' = [scr EXCEPT ![A(t)] = IF ready[tabs[ev[t]]] THEN (@ * 3) % 16 ELSE 15]
          /\ ready' = [ready EXCEPT ![tabs[ev[t]]] = TRUE]
          /\ UNCHANGED << made, area, tabs, ev, x, left, out >>
Add(t) == At(t, "add", "store") /\ scr' = [scr EXCEPT ![A(t)] = (@ + 1) % 16] /\ UNCHANGED << made, area, tabs, ready, ev, x, left, out >>
Store(t) == At(t, "store", "idle") /\ out' = [out EXCEPT ![t] = << x[t], scr[A(t)] >>] /\ ev' = [ev EXCEPT ![t] = 0]
            /\ UNCHANGED << made, area, tabs, scr, ready, x, left >>
Next == \/ \E d \in Evals : New(d)
        \/ \E e, d \in Evals : Derive(e, d)
        \/ \E t \in Threads : \/ \E e \in Evals, v \in Inputs : Begin(t, e, v)
                              \/ Load(t) \/ Mul(t) \/ Add(t) \/ Store(t)
Spec == Init /\ [][Next]_vars
(* every result is that of the operation running alone *)
Sequential == \A t \in Threads : out[t][2] = F(out[t][1])
(* no two operations in progress touch the same scratch area *)
NoRace == \A t, u \in Threads : t # u /\ pc[t] # "idle" /\ pc[u] # "idle" => A(t) # A(u)
=============================================================================
