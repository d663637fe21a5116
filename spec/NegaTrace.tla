----------------------------- MODULE NegaTrace ------------------------------
(* Recomputes recorded polynomial operations exactly, modulo X^N + 1 and 2^32
   in limb arithmetic.  A transform register is known through the polynomial
   the inverse transform gives for it; that polynomial must be the one the
   ring operation prescribes.  Products of two dense polynomials of large
   degree are recomputed at the recorded positions only.                    *)
EXTENDS TraceLib, Torus, FiniteSets, FiniteSetsExt
PR == 1 .. 4
FR == 1 .. 3
VARIABLES l, N, p, f, pf, ff
tvars == << l, N, p, f, pf, ff >>
Empty == [r \in PR |-> <<>>]
EmptyF == [r \in FR |-> <<>>]
Zero4 == [r \in PR |-> 0]
Zero3 == [r \in FR |-> 0]
TInit == l = 1 /\ N = 0 /\ p = Empty /\ f = EmptyF /\ pf = Zero4 /\ ff = Zero3

At(x, i) == << x[2 * i + 1], x[2 * i + 2] >>          \* coefficients 0 .. N-1
Ix == 0 .. N - 1
Fits(v) == Len(v) = 2 * N
Where(e) == IF e.pos = <<>> THEN Ix ELSE {e.pos[i] : i \in 1 .. Len(e.pos)}
Supp(x) == {i \in Ix : x[2 * i + 1] # 0 \/ x[2 * i + 2] # 0}
\* coefficient k of a * b, given the support s of b
ProdAt(a, b, s, k) == FoldSet(LAMBDA i, acc : IF i <= k THEN TAdd(acc, TMul(At(a, k - i), At(b, i)))
                                              ELSE TSub(acc, TMul(At(a, k - i + N), At(b, i))), TZero, s)
Product(e, a, b, G(_, _)) ==      \* G(k, c): what the result must be at k when the product has c there
  LET sa == Supp(a)
      sb == Supp(b)
      sw == Cardinality(sa) < Cardinality(sb)
      x == IF sw THEN b ELSE a
      y == IF sw THEN a ELSE b
      s == IF sw THEN sa ELSE sb
  IN \A k \in Where(e) : At(e.v, k) = G(k, ProdAt(x, y, s, k))
Plain(k, c) == c
Map1(e, a, G(_)) == \A k \in Ix : At(e.v, k) = G(At(a, k))
Map2(e, a, b, G(_, _)) == \A k \in Ix : At(e.v, k) = G(At(a, k), At(b, k))
Half(x) == << (x[1] \div 2) + (IF x[1] >= 32768 THEN 32768 ELSE 0), ((x[1] % 2) * 32768) + (x[2] \div 2) >>
Scaled(c, x) == CASE c = 0 -> TNeg(TScaleS(x, 3)) [] c = 1 -> TNeg(x) [] c = 2 -> TZero [] c = 3 -> x
                  [] c = 4 -> TScaleS(x, 2) [] c = 5 -> TScaleS(x, 5) [] c = 6 -> Half(x)
\* signed rotation: coefficient k of a * X^r; a negated coefficient may be off by one unit
Rotated(v, a, r0) ==
  LET r == r0 % (2 * N)
      m == r % N
      up == r >= N
  IN /\ Len(v) = 2 * N
     /\ \A k \in Ix :
          LET src == IF k >= m THEN k - m ELSE k - m + N
              negd == (k >= m) = up
              x == At(a, src)
          IN IF negd THEN At(v, k) = TNeg(x) \/ At(v, k) = TSub(TNeg(x), TOne) ELSE At(v, k) = x
PStep(e) ==
  CASE e.op = "load" -> TRUE
    [] e.op \in {"mul", "mulassign"} -> Product(e, p[e.a], p[e.b], Plain)
    [] e.op = "muladd" -> LET G(k, c) == TAdd(At(p[e.d], k), c) IN Product(e, p[e.a], p[e.b], G)
    [] e.op = "mulsub" -> LET G(k, c) == TSub(At(p[e.d], k), c) IN Product(e, p[e.a], p[e.b], G)
    [] e.op = "copy" -> e.v = p[e.a]
    [] e.op = "clear" -> \A k \in Ix : At(e.v, k) = TZero
    [] e.op \in {"rot", "rotip", "rotdirect"} -> Rotated(e.v, p[e.a], e.k)
    [] e.op \in {"back", "backassign", "backunsafe"} -> e.v = f[e.a]
    [] e.op = "backadd" -> Map2(e, p[e.d], f[e.a], TAdd)
    [] e.op = "backsub" -> Map2(e, p[e.d], f[e.a], TSub)
    [] e.op = "bufprod" -> LET sa == Supp(f[e.x])
                               sb == Supp(f[e.y])
                           IN \A k \in Where(e) : At(e.v, k) = TAdd(ProdAt(p[e.a], f[e.x], sa, k), ProdAt(p[e.b], f[e.y], sb, k))
    [] OTHER -> FALSE
FStep(e) ==
  CASE e.op \in {"fwd", "fwdassign"} -> e.v = p[e.a]
    [] e.op \in {"fadd", "faddassign"} -> Map2(e, f[e.a], f[e.b], TAdd)
    [] e.op \in {"fsub", "fsubassign"} -> Map2(e, f[e.a], f[e.b], TSub)
    [] e.op \in {"fmul", "fmulassign"} -> Product(e, f[e.a], f[e.b], Plain)
    [] e.op = "fmuladd" -> LET G(k, c) == TAdd(At(f[e.d], k), c) IN Product(e, f[e.a], f[e.b], G)
    [] e.op = "fmulsub" -> LET G(k, c) == TSub(At(f[e.d], k), c) IN Product(e, f[e.a], f[e.b], G)
    [] e.op = "ffloat" -> LET G(x) == Scaled(e.k, x) IN Map1(e, f[e.a], G)
    [] e.op = "ffloatadd" -> LET G(x, y) == TAdd(x, Scaled(e.k, y)) IN Map2(e, f[e.d], f[e.a], G)
    [] e.op \in {"fcopy", "fcopyfrom"} -> e.v = f[e.a]
    [] e.op = "fclear" -> \A k \in Ix : At(e.v, k) = TZero
    [] OTHER -> FALSE
FOps == {"fwd", "fwdassign", "fadd", "faddassign", "fsub", "fsubassign", "fmul", "fmulassign", "fmuladd", "fmulsub",
         "ffloat", "ffloatadd", "fcopy", "fcopyfrom", "fclear"}
Spends == {"backunsafe", "backadd", "backsub"}         \* documented to destroy their source
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> /\ Holds(e.nz = 0 /\ \A i \in 1 .. Len(e.lens) : e.lens[i] = e.n)
                            /\ N' = e.n /\ p' = Empty /\ f' = EmptyF /\ pf' = Zero4 /\ ff' = Zero3
       [] e.ev = "rotx" -> /\ Holds(Rotated(e.v, p[e.a], e.k)) /\ UNCHANGED << N, p, f, pf, ff >>
       [] e.ev = "op" ->
            /\ Holds(Fits(e.v))
            /\ IF e.op \in FOps
               THEN /\ Holds(FStep(e))
                    /\ f' = [f EXCEPT ![e.d] = e.v] /\ p' = p
                    /\ Holds(\A r \in PR : pf[r] = 0 \/ e.pf[r] = pf[r])
                    /\ Holds(\A r \in FR : r = e.d \/ ff[r] = 0 \/ e.ff[r] = ff[r])
               ELSE /\ Holds(PStep(e))
                    /\ p' = [p EXCEPT ![e.d] = e.v] /\ f' = f
                    /\ Holds(\A r \in PR : r = e.d \/ pf[r] = 0 \/ e.pf[r] = pf[r])
                    /\ Holds(\A r \in FR : (e.op \in Spends /\ r = e.a) \/ ff[r] = 0 \/ e.ff[r] = ff[r])
            /\ pf' = [r \in PR |-> e.pf[r]] /\ ff' = [r \in FR |-> e.ff[r]] /\ UNCHANGED N
       [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
