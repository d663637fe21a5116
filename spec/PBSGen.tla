------------------------------- MODULE PBSGen -------------------------------
(* Histories of programmable bootstraps for the conformance driver: registers,
   two precomputed tables, all entry points.  The moduli admitted by the level
   come from the environment (MMAX).                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Reg, Tab, Depth, Funs, Shapes
MMax == atoi(IOEnv.MMAX)
VARIABLES hist, md, tm, done
vars == << hist, md, tm, done >>
Init == hist = <<>> /\ md = [r \in Reg |-> 0] /\ tm = [t \in Tab |-> 0] /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Mods == 1 .. MMax
Enc == \E d \in Reg, m \in Mods, sh \in Shapes : \E x \in 0 .. m - 1 :
         Log([op |-> "enc", d |-> d, m |-> m, x |-> x, sh |-> sh]) /\ md' = [md EXCEPT ![d] = m] /\ UNCHANGED tm
(* tables fit the modulus of some register *)
Mk == \E t \in Tab, r \in Reg, f \in Funs : md[r] > 0 /\
        Log([op |-> "mk", t |-> t, m |-> md[r], f |-> f]) /\ tm' = [tm EXCEPT ![t] = md[r]] /\ UNCHANGED md
Func == \E d, s \in Reg, f \in Funs, o \in {"func", "funcassign"} : md[s] > 0 /\
        Log([op |-> o, d |-> d, s |-> s, f |-> f]) /\ md' = [md EXCEPT ![d] = md[s]] /\ UNCHANGED tm
(* a function and, right after it, one that differs at a single message *)
Near == \E d, s \in Reg, o, o2 \in {"func", "funcassign"} : md[s] > 0 /\ d # s /\
        hist' = hist \o << [op |-> o, d |-> d, s |-> s, f |-> "rnd"], [op |-> o2, d |-> d, s |-> s, f |-> "near"],
                           [op |-> o2, d |-> d, s |-> s, f |-> "near"] >> /\ md' = [md EXCEPT ![d] = md[s]] /\ UNCHANGED << tm, done >>
Lut == \E d, s \in Reg, t \in Tab, o \in {"lut", "luttemp", "lutassign"} : md[s] > 0 /\ tm[t] = md[s] /\
        Log([op |-> o, d |-> d, s |-> s, t |-> t]) /\ md' = [md EXCEPT ![d] = md[s]] /\ UNCHANGED tm
Lut2 == Lut
(* raw table whose outputs have another modulus *)
Full == \E d, s \in Reg, f \in Funs, m \in Mods : md[s] > 0 /\
        Log([op |-> "full", d |-> d, s |-> s, f |-> f, m |-> m]) /\ md' = [md EXCEPT ![d] = m] /\ UNCHANGED tm
Stop == Len(hist) >= Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << hist, md, tm >>
More == Len(hist) < Depth
Next == \/ More /\ Enc
        \/ More /\ Mk
        \/ More /\ Func
        \/ More /\ Near
        \/ More /\ Lut
        \/ More /\ Lut2
        \/ More /\ Full
        \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
