---------------------------- MODULE LinearTrace -----------------------------
(* Recomputes every component of every recorded linear operation in 32-bit
   limb arithmetic.  A vector is recorded as <<hi_1, lo_1, hi_2, lo_2, ...>>.
   fp is the fingerprint of each register, re-read after every operation;
   ph its phase under a fixed key.                                          *)
EXTENDS TraceLib, Torus
CONSTANT Reg
VARIABLES l, v, fp, ph
tvars == << l, v, fp, ph >>
TInit == l = 1 /\ v = [r \in Reg |-> <<>>] /\ fp = [r \in Reg |-> 0] /\ ph = [r \in Reg |-> TZero]

At(x, i) == << x[2 * i - 1], x[2 * i] >>
Size(x) == Len(x) \div 2
Agree(e, F(_, _)) == /\ Len(e.v) = 2 * (e.n + 1)
                     /\ Len(v[e.a]) = Len(e.v) /\ Len(v[e.b]) = Len(e.v)
                     /\ \A i \in 1 .. e.n + 1 : At(e.v, i) = F(At(v[e.a], i), At(v[e.b], i))
AgreeC(e, F(_, _), c) ==
  /\ Len(e.v) = 2 * (e.n + 1)
  /\ Len(v[e.a]) = Len(e.v) /\ Len(v[e.b]) = Len(e.v)
  /\ \A i \in 1 .. e.n : At(e.v, i) = F(At(v[e.a], i), At(v[e.b], i))
  /\ At(e.v, e.n + 1) = TAdd(F(At(v[e.a], e.n + 1), At(v[e.b], e.n + 1)), c)
E8 == TPow(3)
NegSum(x, y) == TNeg(TAdd(x, y))
XPlus2Y(x, y) == TAdd(x, TScaleS(y, 2))
NegFst(x, y) == TNeg(x)
Step(e) ==
  CASE e.op = "load" -> Len(e.v) = 2 * (e.n + 1)
    [] e.op \in {"add", "addassign"} -> Agree(e, TAdd) /\ e.ph = TAdd(ph[e.a], ph[e.b])
    [] e.op = "sub" -> Agree(e, TSub) /\ e.ph = TSub(ph[e.a], ph[e.b])
    [] e.op = "mul" -> Agree(e, TMul)
    [] e.op = "neg" -> Agree(e, NegFst) /\ e.ph = TNeg(ph[e.a])
    [] e.op = "addmul" -> LET F(x, y) == TAdd(x, TMul(y, e.k)) IN Agree(e, F) /\ e.ph = F(ph[e.a], ph[e.b])
    [] e.op = "submul" -> LET F(x, y) == TSub(x, TMul(y, e.k)) IN Agree(e, F) /\ e.ph = F(ph[e.a], ph[e.b])
    [] e.op = "pnand" -> AgreeC(e, NegSum, E8)
    [] e.op = "pand"  -> AgreeC(e, TAdd, TNeg(E8))
    [] e.op = "por"   -> AgreeC(e, TAdd, E8)
    [] e.op = "pxor"  -> AgreeC(e, XPlus2Y, TPow(2))
    [] OTHER -> FALSE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> v' = [r \in Reg |-> <<>>] /\ fp' = [r \in Reg |-> 0] /\ ph' = [r \in Reg |-> TZero]
       [] e.ev = "op" -> /\ Step(e)
                         /\ v' = [v EXCEPT ![e.d] = e.v]
                         /\ ph' = [ph EXCEPT ![e.d] = e.ph]
                         /\ fp' = [fp EXCEPT ![e.d] = e.fps[e.d]]
                         /\ \A r \in Reg \ {e.d} : e.fps[r] = fp[r]
       [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
