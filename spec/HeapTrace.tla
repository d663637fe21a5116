----------------------------- MODULE HeapTrace ------------------------------
(* Judges recorded calls.  fp holds the fingerprints of all live objects in
   order of creation; new objects are appended.  ov counts pairs of a new
   object and another object that share memory.                             *)
EXTENDS TraceLib, HeapCalls
VARIABLES l, fp, lvl
tvars == << l, fp, lvl >>
TInit == l = 1 /\ fp = <<>> /\ lvl = 0
SigTab == TLCEval(SigOf)
W(e) == LET s == SigTab[e.c]
        IN CASE s.eff = "out" -> {e.oi}
             [] s.eff = "outc" -> {e.oi, e.ii[1]}
             [] OTHER -> {}
NewOK(e) == LET k == Len(e.fp) - Len(fp)
            IN IF SigTab[e.c].eff = "new" THEN k >= 1 /\ e.ov = 0 ELSE k = 0
Step(e) ==
  CASE e.ev = "reset" -> fp' = e.fp /\ lvl' = e.lvl
    [] e.ev = "call" -> /\ Holds(\A i \in 1 .. Len(fp) : i \notin W(e) => e.fp[i] = fp[i])
                        /\ NewOK(e) /\ e.lvl = lvl
                        /\ fp' = e.fp /\ lvl' = lvl
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
