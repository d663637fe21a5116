---------------------------- MODULE MessageTrace ----------------------------
(* Judges recorded encryptions, decryptions, encodings and decodings against
   the 32-bit message encoding.  s8 is the logged noise allowance (eight and a
   half standard deviations of the requested noise), 0 for noiseless calls.  *)
EXTENDS TraceLib, Torus
VARIABLE l
EncM(x, m) == THalfFrac(x % m, m)
HalfM(m) == (2 ^ 30) \div m
SlackM(m) == 2 * m + 4
At(v, i) == << v[2 * i - 1], v[2 * i] >>
(* decryption of a phase that is e away from the encoding of x *)
DecOK(e) == /\ TNear(e.ph, TAdd(EncM(e.x, e.m), TInt(e.e)), 0)
            /\ Abs(e.e) <= HalfM(e.m) - SlackM(e.m) => e.dec = e.x % e.m
            /\ e.dec \in 0 .. e.m - 1
EncOK(e) == /\ TNear(e.ph, EncM(e.x, e.m), e.s8 + 1)
            /\ e.s8 < HalfM(e.m) - SlackM(e.m) => e.dec = e.x % e.m
            /\ e.dec \in 0 .. e.m - 1
(* encoder with scale 1/(k m) *)
HalfK(e) == (2 ^ 30) \div ((e.k * e.m + 1) \div 2)
CodeOK(e) == /\ TNear(e.v, TFrac(e.x % e.m, e.k * e.m), 1)
             /\ TNear(e.v2, TFrac(e.x % e.m, e.k * e.m), 1)
             /\ TNear(e.w, TAdd(TFrac(e.x % e.m, e.k * e.m), TInt(e.e)), 0)
             /\ Abs(e.e) <= HalfK(e) - SlackM(e.m) => e.dec = e.x % e.m
             /\ e.dec \in 0 .. e.m - 1
             /\ e.b = (e.dec # 0)
Result(e) == CASE e.op = "add" -> e.x + e.y [] e.op = "sub" -> e.x - e.y [] e.op = "neg" -> -e.x
SumOK(e) == e.s8 < HalfM(e.m) - SlackM(e.m) => e.dec = Result(e) % e.m
Mu(b) == IF b THEN TPow(3) ELSE TNeg(TPow(3))
BoolOK(e) == /\ Len(e.phs) = 2 * Len(e.bs) /\ Len(e.decs) = Len(e.bs) /\ Len(e.bs) = e.n
             /\ \A i \in 1 .. e.n : TNear(At(e.phs, i), Mu(e.bs[i]), e.s8 + 1) /\ e.decs[i] = e.bs[i]
RealOK(e) == /\ Len(e.phs) = 2 * e.n /\ Len(e.want) = 2 * e.n
             /\ \A i \in 1 .. e.n : TNear(At(e.phs, i), At(e.want, i), e.s8 + 1)
(* reals to the torus and back: one unit of truncation, element by element;
   a sample of deviation zero is the mean                                   *)
ConvOK(e) == /\ Len(e.want) = 2 * e.n /\ Len(e.one) = 2 * e.n
             /\ \A i \in 1 .. e.n : TNear(At(e.one, i), At(e.want, i), 1)
             /\ e.vec = e.one /\ e.gf = e.one /\ e.gv = e.one /\ e.gt = e.want
             /\ e.whole /\ e.ys = e.ts /\ e.rt = e.ts
(* sign decryption of crafted phases; exactly on a boundary either is right *)
SignOK(e) == /\ Len(e.decs) = e.n /\ Len(e.phs) = 2 * e.n
             /\ \A i \in 1 .. e.n : LET p == At(e.phs, i)
                  IN p \in {<<0, 0>>, <<32768, 0>>} \/ e.decs[i] = (p[1] < 32768)
Step(e) == CASE e.ev = "dec" -> DecOK(e)
             [] e.ev = "enc" -> EncOK(e)
             [] e.ev = "code" -> CodeOK(e)
             [] e.ev = "sum" -> SumOK(e)
             [] e.ev = "bool" -> BoolOK(e)
             [] e.ev = "real" -> RealOK(e)
             [] e.ev = "conv" -> ConvOK(e)
             [] e.ev = "sign" -> SignOK(e)
             [] OTHER -> FALSE
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_l
=============================================================================
