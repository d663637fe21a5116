----------------------------- MODULE KeyTrace ------------------------------
(* Judges generated cloud keys, entry by entry, and recorded key switchings.
   All quantities are exact 32-bit torus elements.                         *)
EXTENDS TraceLib, Torus, Params, SequencesExt
VARIABLES l, lv, key, st
tvars == << l, lv, key, st >>
Zero == [n |-> 0, sum |-> 0, sq |-> 0]
TInit == l = 1 /\ lv = "128" /\ key = <<>> /\ st = Zero
PP == TLCEval([x \in LevelNames |-> Par(x)])
p == PP[lv]
B == 2 ^ p.basebit
(* statistics in units that make the standard deviation 32 .. 63 *)
Sh(sd) == CHOOSE x \in 0 .. 20 : sd < 64 * 2 ^ x /\ (x = 0 \/ sd >= 32 * 2 ^ x)
Rd(e, x) == IF x = 0 THEN e ELSE (e + 2 ^ (x - 1)) \div 2 ^ x
Plus(acc, e) == [n |-> acc.n + 1, sum |-> acc.sum + e, sq |-> acc.sq + e * e]
(* spread within tol percent, mean within six standard errors; r is the
   integer square root of the sample size                                  *)
StatOK(sd, r, tol) ==
  LET x == Sh(sd)
      w == (sd * 16) \div (2 ^ x)
      v == (w * w) \div 256
      s == sd \div (2 ^ x)
  IN /\ r * r <= st.n /\ (r + 1) * (r + 1) > st.n
     /\ (st.sq \div st.n) * 100 >= (v + 1) * (100 - tol) - 200 /\ (st.sq \div st.n) * 100 <= (v + 1) * (100 + tol) + 200
     /\ Abs(st.sum) <= 6 * (s + 1) * (r + 1)

Row(e) == LET X == Sh(p.sd0)
              errs == [x \in 1 .. p.t * (B - 1) |->
                         TDist(e.ph[x], TScaleS(TPow(p.basebit * (((x - 1) \div (B - 1)) + 1)), e.s * (((x - 1) % (B - 1)) + 1)))]
          IN /\ Len(e.ph) = p.t * (B - 1)
             /\ e.s = key[e.i + 1]
             /\ Holds(\A x \in DOMAIN errs : Abs(errs[x]) <= 8 * p.sd0 + 1)
             /\ st' = FoldLeft(LAMBDA acc, er : Plus(acc, Rd(er, X)), st, errs)

(* gadget value of row r: the first l rows carry it in the mask *)
G(r) == TPow(p.bgbit * ((r % p.l) + 1))
BskExp(e, x) == IF e.r < p.l THEN (IF e.mu = 1 /\ key[x] = 1 THEN TNeg(G(e.r)) ELSE TZero)
                ELSE (IF e.mu = 1 /\ x = 1 THEN G(e.r) ELSE TZero)
Bsk(e) == LET X == Sh(p.sd1)
              errs == [x \in 1 .. Len(e.ph) |-> TDist(e.ph[x], BskExp(e, x))]
          IN /\ e.mu \in {0, 1}
             /\ Holds(\A x \in DOMAIN errs : Abs(errs[x]) <= 8 * p.sd1 + 16)
             /\ st' = FoldLeft(LAMBDA acc, er : Plus(acc, Rd(er, X)), st, errs)

(* sum over the digits of half the base at each digit position, plus half a
   unit of the last digit                                                  *)
Off == FoldLeft(LAMBDA acc, i : TAdd(acc, TPow(p.bgbit * (i - 1) + 1)), TPow(p.l * p.bgbit + 1), [i \in 1 .. p.l |-> i])
Const(e) == /\ e.off = Off
            /\ e.tva = << TZero >> /\ e.tvb = << TPow(3) >> /\ e.tvn = << p.n1, p.n1 >>
            /\ e.nksk = B * p.t * p.n1 /\ e.nbsk = p.n0
            /\ e.kl = << p.n0 + 1 >> /\ e.bl = << 2 * p.l >> /\ e.bd = << p.n1 >>

U == 2 ^ (32 - p.basebit * p.t)
Low(x) == IF U <= B16 THEN x[2] % U ELSE (x[1] % (U \div B16)) * B16 + x[2]
Err(x) == ((Low(x) + U \div 2) % U) - U \div 2
Isq(x) == CHOOSE r \in 0 .. 200 : r * r <= x /\ (r + 1) * (r + 1) > x
Ks(e) == LET es == FoldLeft(LAMBDA acc, x : acc + (IF key[e.at[x]] = 1 THEN Err(e.a[x]) ELSE 0), 0, [x \in 1 .. Len(e.at) |-> x])
             d == TSub(TSub(e.po, e.pi), TInt(es))
         IN /\ Len(e.at) = Len(e.a) /\ e.len = p.n0 + 1
            /\ IF e.k = "exact" THEN d = TZero
               ELSE Abs(TDist(d, TZero)) <= 8 * p.sd0 * (1 + Isq(Len(e.at) * p.t))

Step(e) ==
  CASE e.ev = "reset" -> key' = <<>> /\ st' = Zero
    [] e.ev = "sk1" -> key' = e.s /\ st' = Zero /\ Len(e.s) = p.n1 /\ Holds(\A x \in DOMAIN e.s : e.s[x] \in {0, 1})
    [] e.ev = "const" -> Const(e) /\ UNCHANGED << key, st >>
    [] e.ev = "row" -> Row(e) /\ UNCHANGED key
    [] e.ev = "rowend" -> StatOK(p.sd0, e.root, 12) /\ st' = Zero /\ UNCHANGED key
    [] e.ev = "bsk" -> Bsk(e) /\ UNCHANGED key
    [] e.ev = "bskend" -> (p.sd1 > 1 => StatOK(p.sd1, e.root, 12)) /\ st' = Zero /\ UNCHANGED key
    [] e.ev = "ks" -> Ks(e) /\ UNCHANGED << key, st >>
    [] OTHER -> FALSE
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ lv' = IF Trace[l].ev = "reset" THEN Trace[l].level ELSE lv
         /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
