------------------------------- MODULE Fresh -------------------------------
(* Where the randomness of encryptions comes from.  Several goroutines (and
   several processes) encrypt at the same time; each encryption obtains a
   generator, draws its mask and its noise from it and publishes the mask.
     Source = "os"       every draw comes from the system's generator
            = "seeded"   a new generator per encryption, seeded with one of
                         Seeds values
            = "shared"   one unsynchronised generator for all goroutines
            = "fixed"    a generator per process that starts from the same
                         state in every process                            *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Procs, Threads, Each, Source, Seeds
VARIABLES pc, left, gen, reg, os, masks, noises
vars == << pc, left, gen, reg, os, masks, noises >>
G == Procs \X Threads
Init == /\ pc = [g \in G |-> "idle"] /\ left = [g \in G |-> Each]
        /\ gen = [p \in Procs |-> IF Source = "fixed" THEN 0 ELSE p * 100]   \* shared generator states
        /\ reg = [g \in G |-> 0] /\ os = 1000 /\ masks = <<>> /\ noises = <<>>
Start(g) == /\ pc[g] = "idle" /\ left[g] > 0 /\ left' = [left EXCEPT ![g] = @ - 1]
            /\ \/ Source = "os" /\ reg' = [reg EXCEPT ![g] = os] /\ os' = os + 10
               \/ Source = "seeded" /\ (\E s \in Seeds : reg' = [reg EXCEPT ![g] = 10 * s]) /\ UNCHANGED os
               \/ Source \in {"shared", "fixed"} /\ reg' = [reg EXCEPT ![g] = gen[g[1]]] /\ UNCHANGED os
            /\ pc' = [pc EXCEPT ![g] = "advance"] /\ UNCHANGED << gen, masks, noises >>
(* a shared generator is advanced in a separate step *)
Advance(g) == /\ pc[g] = "advance" /\ pc' = [pc EXCEPT ![g] = "emit"]
              /\ gen' = IF Source \in {"shared", "fixed"} THEN [gen EXCEPT ![g[1]] = reg[g] + 10] ELSE gen
              /\ UNCHANGED << left, reg, os, masks, noises >>
EmitC(g) == /\ pc[g] = "emit" /\ pc' = [pc EXCEPT ![g] = "idle"]
            /\ masks' = Append(masks, reg[g]) /\ noises' = Append(noises, reg[g] + 1)
            /\ UNCHANGED << left, gen, reg, os >>
Next == \E g \in G : Start(g) \/ Advance(g) \/ EmitC(g)
Spec == Init /\ [][Next]_vars
(* no two ciphertexts share their mask, nor one's noise another's mask *)
Distinct == \A i, j \in DOMAIN masks : i # j => masks[i] # masks[j]
Independent == \A i, j \in DOMAIN masks : masks[i] # noises[j]
=============================================================================
