------------------------------ MODULE LutTrace ------------------------------
(* Judges recorded generator histories.  A table is recorded as the run
   lengths of its body (<<start, length, hi, lo>>) and the number of non-zero mask
   coefficients; ys are the function's outputs (integers, or limb pairs for
   raw generation).                                                         *)
EXTENDS TraceLib, LutTable
CONSTANT Tab
VARIABLES l, gen, fp
tvars == << l, gen, fp >>
TInit == l = 1 /\ gen = [m |-> 0, k |-> 1] /\ fp = [t \in Tab |-> 0]

ValOf(e, m, k, x) ==
  IF e.raw THEN << e.ys[2 * x + 1], e.ys[2 * x + 2] >> ELSE TFrac(e.ys[x + 1] % m, k * m)
Want(e, m, k, x) == IF x < m THEN ValOf(e, m, k, x) ELSE TNeg(ValOf(e, m, k, x - m))
Ulp(e) == IF e.raw THEN 0 ELSE 1
(* runs are <<start, length, hi, lo>> and must tile 0 .. N-1 *)
Tiles(rs, N) == /\ rs[1][1] = 0 /\ rs[Len(rs)][1] + rs[Len(rs)][2] = N
                /\ \A i \in 1 .. Len(rs) - 1 : rs[i + 1][1] = rs[i][1] + rs[i][2]
RunOK(r, W, m, N, ulp) ==
  LET lo == NearestX(r[1], m, N) - 1
      hi == NearestX(r[1] + r[2] - 1, m, N) + 1
      ok == TLCEval({x \in lo .. hi : x >= 0 /\ x <= m /\ TNear(<< r[3], r[4] >>, W[x + 1], ulp)})
  IN \A jj \in r[1] .. r[1] + r[2] - 1 :
       LET x0 == NearestX(jj, m, N)
       IN IF Surely(jj, x0, m, N) THEN x0 \in ok
          ELSE \E x \in x0 - 1 .. x0 + 1 : x \in ok /\ Maybe(jj, x, m, N)
Runs(e, m, k) == LET W == TLCEval([i \in 1 .. m + 1 |-> Want(e, m, k, i - 1)])
                     N == e.N
                     rs == e.runs
                     u == Ulp(e)
                 IN Tiles(rs, N) /\ \A i \in 1 .. Len(rs) : RunOK(rs[i], W, m, N, u)
TableOK(e, m, k) == e.anz = 0 /\ Runs(e, m, k)
GenState(e, g) == e.gm = g.m /\ TNear(e.gs, TFrac(1, g.k * g.m), 1)
OneScale(g) == g.k * g.m = 1       \* scale 1 has no limb form
GState(e, g) == e.gm = g.m /\ (OneScale(g) \/ TNear(e.gs, TFrac(1, g.k * g.m), 1))
Frame(e, ds) == \A t \in Tab \ ds : e.fps[t] = fp[t]
Fp(e) == fp' = [t \in Tab |-> e.fps[t]]
(* switching x to N positions: nearest position, in range; ties either way *)
ModsOK(e) == \A i \in 1 .. Len(e.rs) :
  /\ e.rs[i] \in 0 .. e.N - 1
  /\ LET x == << e.xs[2 * i - 1], e.xs[2 * i] >>
     IN Abs(TDist(TMul(TInt(e.rs[i]), TPow(e.nbit)), x)) <= 2 ^ (31 - e.nbit)
Step(e) ==
  CASE e.ev = "reset" -> gen' = [m |-> 0, k |-> 1] /\ fp' = [t \in Tab |-> 0]
    [] e.ev = "new" -> gen' = [m |-> e.m, k |-> e.k] /\ GState(e, gen') /\ Frame(e, {}) /\ UNCHANGED fp
    [] e.ev = "gen" -> Holds(TableOK(e, gen.m, gen.k)) /\ GState(e, gen) /\ Frame(e, {e.d}) /\ Fp(e) /\ UNCHANGED gen
    [] e.ev = "custom" -> Holds(TableOK(e, e.m, e.k)) /\ GState(e, gen) /\ Frame(e, {e.d}) /\ Fp(e) /\ UNCHANGED gen
    [] e.ev = "panic" -> GState(e, gen) /\ Frame(e, {}) /\ UNCHANGED << gen, fp >>
    [] e.ev = "copy" -> e.fps[e.d] = fp[e.a] /\ Frame(e, {e.d}) /\ Fp(e) /\ UNCHANGED gen
    [] e.ev = "clear" -> e.runs = << <<0, e.N, 0, 0>> >> /\ e.anz = 0 /\ Frame(e, {e.d}) /\ Fp(e) /\ UNCHANGED gen
    [] e.ev = "mods" -> Holds(ModsOK(e)) /\ GState(e, gen) /\ Frame(e, {}) /\ UNCHANGED << gen, fp >>
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
