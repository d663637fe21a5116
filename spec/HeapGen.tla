------------------------------ MODULE HeapGen -------------------------------
(* Call sequences over all kinds of objects; each kind has a few slots, so
   operands and outputs coincide often.  A new object replaces its slot's
   object, which stays alive.  Groups gives every family of calls the same
   weight.                                                                  *)
EXTENDS Integers, HeapCalls, TLC, Json
CONSTANTS Depth, Skip
VARIABLES hist, done
vars == << hist, done >>
Init == hist = <<>> /\ done = FALSE
Slots(k) == CASE k = "c0" -> 1 .. 4 [] k \in {"ck", "ge", "bl"} -> {1} [] k = "" -> {0} [] OTHER -> 1 .. 2
Ins(s) == TLCEval([i \in 1 .. Len(s.in) |-> RandomElement(Slots(s.in[i]))])
Do(G) == \E s \in G : \E o \in Slots(s.out) :
           hist' = Append(hist, [c |-> s.c, in |-> Ins(s), kin |-> s.in, out |-> s.out, eff |-> s.eff, o |-> o, rep |-> RandomElement(IF s.c = "newck" THEN {1} ELSE {1, 2})]) /\ UNCHANGED done
All == {s \in Sigs : s.c \notin Skip}
Only(ks) == {s \in All : s.out \in ks \/ (s.out = "" /\ s.in[1] \in ks)}
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED hist
More == Len(hist) < Depth
Next == \/ More /\ Do(Only({"c0"}))
        \/ More /\ Do(Only({"c0", "c1"}))
        \/ More /\ Do(Only({"c1", "r1", "rf", "g", "gf"}))
        \/ More /\ Do(Only({"t"}))
        \/ More /\ Do(Only({"p", "f"}))
        \/ More /\ Do(Only({"sk", "pk", "rk", "ck"}))
        \/ More /\ Do(All)
        \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
