----------------------------- MODULE PoolTrace ------------------------------
(* Judges recorded pool histories: fingerprints of all live buffers after
   every request; a fresh computation's content is recorded with it.        *)
EXTENDS TraceLib
CONSTANT Life
VARIABLES l, hs
tvars == << l, hs >>
TInit == l = 1 /\ hs = <<>>
Aged(p, o) == [i \in 1 .. Len(hs) |-> IF hs[i].p # p \/ hs[i].o # o THEN hs[i]
              ELSE [hs[i] EXCEPT !.age = @ + 1, !.live = hs[i].live /\ hs[i].age + 1 < Life]]
New(e) == [p |-> e.p, o |-> e.o, age |-> 0, live |-> TRUE, fp |-> e.fp[Len(hs) + 1]]
Stable(e, H, d) == \A i \in 1 .. Len(H) : H[i].live /\ i # d => e.fp[i] = H[i].fp
Same(e, i) == hs[i].o = e.o /\ (hs[i].p = e.p \/ (e.p \in {"brot", "btrl"} /\ hs[i].p \in {"brot", "btrl"}))
Step(e) ==
  CASE e.ev = "reset" -> hs' = <<>>
    [] e.ev = "get" -> hs' = Append(Aged(e.p, e.o), New(e)) /\ e.n = e.len /\ Holds(Stable(e, Aged(e.p, e.o), 0))
    [] e.ev = "rotk" -> hs' = Append(Aged(e.p, e.o), New(e)) /\ e.n = e.len /\ Holds(Stable(e, Aged(e.p, e.o), 0))
                        /\ e.worst <= 1        \* the rotation itself, up to one unit
    [] e.ev = "clear" -> hs' = [hs EXCEPT ![e.i] = [@ EXCEPT !.fp = e.fp[e.i]]] /\ e.zero /\ Holds(Stable(e, hs, e.i))
    [] e.ev \in {"extprod", "cmux", "blindrot"} ->
         LET H == [i \in 1 .. Len(hs) |-> IF hs[i].o = e.o /\ hs[i].p \in {"rot", "trl"} THEN [hs[i] EXCEPT !.live = FALSE] ELSE hs[i]]
         IN hs' = Append(H, New(e)) /\ Holds(Stable(e, H, 0))
    [] e.ev = "rst" -> LET H == [i \in 1 .. Len(hs) |-> IF Same(e, i) THEN [hs[i] EXCEPT !.live = FALSE] ELSE hs[i]]
                       IN hs' = H /\ Holds(Stable(e, H, 0))
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
