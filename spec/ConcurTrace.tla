---------------------------- MODULE ConcurTrace ----------------------------
(* Judges recorded concurrent rounds against the sequential runs of the same
   operations: every deterministic operation must give bit for bit what it
   gave running alone, and what it gave alone must be right.  Operations
   that draw randomness must give correct and distinct objects.            *)
EXTENDS TraceLib, Gates, Levels, Params, FiniteSets
VARIABLES l, lv, m, bits, msgs, memo, seen
tvars == << l, lv, m, bits, msgs, memo, seen >>
TInit == l = 1 /\ lv = "128" /\ m = 2 /\ bits = <<>> /\ msgs = <<>> /\ memo = << >> /\ seen = {}
p == Par(lv)
Near(x, y, eps) == Abs(TDist(x, y)) <= eps
F(f, x) == (CASE f = "id" -> x [] f = "inc" -> x + 1 [] f = "rev" -> m - 1 - x [] f = "neg" -> -x) % m
Ix(a) == msgs[a - 4]
(* what a single operation must decrypt to; -1: judged by its fingerprint *)
Value(e) == CASE e.o \in {"boot", "bootassign", "dec"} -> bits[e.a]
              [] e.o \in {"prep", "batch"} -> (IF Truth(e.g, bits[e.a] = 1, bits[e.b] = 1) THEN 1 ELSE 0)
              [] e.o \in {"func", "funcassign", "lut", "lutassign", "luttemp", "nest"} -> F(e.f, Ix(e.a))
              [] OTHER -> -1
Pure(e) == e.h > 0 /\ e.dec = Value(e)
(* operations drawing randomness: objects never seen before *)
Fresh(e) == e.h \notin seen /\ seen' = seen \cup {e.h}
MuOf(e) == CASE e.o = "encm" -> THalfFrac(e.x % m, m) [] OTHER -> IF e.x % 2 = 1 THEN TPow(3) ELSE TNeg(TPow(3))
Random(e) == CASE e.o \in {"enc", "encm"} -> Fresh(e) /\ Near(e.ph, MuOf(e), 8 * p.sd0)
               [] e.o = "enc1" -> Fresh(e) /\ Near(e.ph, MuOf(e), 8 * p.sd1)
               [] e.o = "encpk" -> Fresh(e) /\ Near(e.ph, MuOf(e), 8 * p.sd0 * 60)
               [] e.o = "encr" -> Fresh(e) /\ Holds(\A i \in DOMAIN e.phs : Near(e.phs[i], MuOf([e EXCEPT !.x = e.x + i]), 8 * p.sd1 + 4))
               [] e.o = "keygen" -> /\ Fresh(e) /\ e.n0 = p.n0 /\ e.n1 = 2 ^ p.nbit
                                    \* seven standard deviations of a fair coin
                                    /\ (2 * e.c0 - e.n0) * (2 * e.c0 - e.n0) <= 49 * e.n0 /\ (2 * e.c1 - e.n1) * (2 * e.c1 - e.n1) <= 49 * e.n1
                                    /\ e.binary = 1
               [] e.o = "ckgen" -> /\ Fresh(e) /\ e.dec = 1
                                   /\ Holds(\A i \in DOMAIN e.ent : LET y == e.ent[i]
                                        IN Near(<< y[4], y[5] >>, TScaleS(TPow(p.basebit * (y[2] + 1)), y[3] * y[1]), 8 * p.sd0))
               [] e.o = "pkgen" -> Fresh(e) /\ Holds(\A i \in DOMAIN e.phs : Near(e.phs[i], TZero, 8 * p.sd0))
               [] e.o = "rkgen" -> Fresh(e) /\ Holds(\A i \in DOMAIN e.ent : LET y == e.ent[i]
                                        IN Near(<< y[4], y[5] >>, TScaleS(TPow(p.basebit * (y[2] + 1)), y[3] * y[1]), 8 * p.sd0))
               [] OTHER -> FALSE
Drawn == {"enc", "encm", "enc1", "encpk", "encr", "keygen", "ckgen", "pkgen", "rkgen"}
Step(e) ==
  CASE e.ev = "reset" -> /\ lv' = e.level /\ m' = e.m /\ bits' = e.bits /\ msgs' = e.msgs /\ memo' = << >> /\ seen' = {}
    [] e.ev = "seq" -> Pure(e) /\ e.k \notin DOMAIN memo /\ memo' = (e.k :> e.h) @@ memo /\ UNCHANGED << lv, m, bits, msgs, seen >>
    \* the assumption: no evaluator in two goroutines
    [] e.ev = "round" -> /\ Holds(\A i, j \in DOMAIN e.es : i # j => e.es[i] # e.es[j]) /\ Len(e.es) >= 2
                         /\ UNCHANGED << lv, m, bits, msgs, memo, seen >>
    [] e.ev = "ret" -> IF e.o \in Drawn THEN Random(e) /\ UNCHANGED << lv, m, bits, msgs, memo >>
                       ELSE Pure(e) /\ e.k \in DOMAIN memo /\ memo[e.k] = e.h /\ UNCHANGED << lv, m, bits, msgs, memo, seen >>
    \* shared objects are as before the round
    [] e.ev = "end" -> e.shared = 1 /\ UNCHANGED << lv, m, bits, msgs, memo, seen >>
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
