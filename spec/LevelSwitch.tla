---------------------------- MODULE LevelSwitch ----------------------------
(* What survives a change of the security level: the evaluator behind the
   gate functions and the evaluators in the pool of the batched blind
   rotation.  A full evaluator is sized by all parameters of the level it was
   built at; a pooled one only by its degree.  Every use must find one that
   fits the level selected now.                                            *)
EXTENDS Integers, FiniteSets
CONSTANTS Levels, Deg,
          Refresh,     \* when gates rebuild their evaluator: "level", "degree", "never", "once"
          Check,       \* whether the pool's users check the degree
          MaxBatch
VARIABLES cur, ge, pool, busy, ok, made
vars == << cur, ge, pool, busy, ok, made >>
D == CASE Deg = "mixed" -> [x \in Levels |-> IF x % 2 = 0 THEN 512 ELSE 1024]
       [] Deg = "same" -> [x \in Levels |-> 1024]
Init == cur \in Levels /\ ge = cur /\ pool = {} /\ busy = <<>> /\ ok = TRUE /\ made = FALSE
Switch(x) == cur' = x /\ UNCHANGED << ge, pool, busy, ok, made >>
Rebuild == CASE Refresh = "level" -> ge # cur
             [] Refresh = "degree" -> D[ge] # D[cur]
             [] Refresh = "once" -> ~made /\ ge # cur
             [] OTHER -> FALSE
Gate == /\ ge' = (IF Rebuild THEN cur ELSE ge) /\ made' = (made \/ Rebuild)
        /\ ok' = (ok /\ ge' = cur) /\ UNCHANGED << cur, pool, busy >>
(* an element of a batch takes an evaluator (or builds one), uses it, and
   puts it back                                                            *)
Take == \/ \E d \in pool : LET use == IF Check /\ d # D[cur] THEN D[cur] ELSE d
                           IN /\ ok' = (ok /\ use = D[cur]) /\ pool' = (pool \ {d}) \cup {use}
        \/ ok' = ok /\ pool' = pool \cup {D[cur]}
Elem == Take /\ UNCHANGED << cur, ge, busy, made >>
Next == (\E x \in Levels : Switch(x)) \/ Gate \/ Elem
Spec == Init /\ [][Next]_vars
Fits == ok
=============================================================================
