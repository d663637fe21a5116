----------------------------- MODULE ParamsTrace -----------------------------
(* Judges recorded accessor results and object sizes against the published
   profile of the level selected at that point.                             *)
EXTENDS TraceLib, Params
VARIABLES l, cur
vars == << l, cur >>
Eff == IF cur \in LevelNames THEN cur ELSE "128"
p == Par(Eff)
Blocks == IF p.blk <= 1 THEN p.n0 ELSE (p.n0 + p.blk - 1) \div p.blk
\* what the description must say: bits of the level, modulus and degree where it names them
InfoOK(e) == /\ e.text # ""
             /\ (Eff \in {"80", "110", "128"} => e.bits = (CASE Eff = "80" -> 80 [] Eff = "110" -> 110 [] OTHER -> 128))
             /\ (Eff \notin {"80", "110", "128"} => e.mm = p.m /\ e.nn = p.n1 /\ e.bits > 0 /\ 2 ^ e.bits = p.m)
GetOK(e) ==
  CASE e.x = "lwe0" -> e.r = [n |-> p.n0, a |-> p.a0]
    [] e.x = "lwe1" -> e.r = [n |-> p.n1, a |-> p.a1]
    [] e.x = "rlwe" -> e.r = [n |-> p.n1, a |-> p.a1]
    [] e.x = "rgsw" -> e.r = [n |-> p.n1, nbit |-> p.nbit, bgbit |-> p.bgbit, bg |-> 2 ^ p.bgbit, l |-> p.l, basebit |-> p.basebit,
                              t |-> p.t, a |-> p.a1, blk |-> p.blk]
    [] e.x = "ksk" -> e.r = [a |-> p.a0]
    [] e.x = "bsk" -> e.r = [a |-> p.a1]
    [] e.x = "blocks" -> e.r = [v |-> Blocks]
    [] e.x = "useblk" -> e.r = [v |-> p.blk > 1]
    [] e.x = "info" -> InfoOK(e.r)
    [] OTHER -> FALSE
\* lengths of everything an object consists of
All(s, v, k) == Len(s) = k /\ \A i \in 1 .. Len(s) : s[i] = v
MakeOK(e) ==
  CASE e.x \in {"tlwe0", "enc0"} -> e.r = << p.n0 + 1 >>
    [] e.x \in {"tlwe1", "enc1"} -> e.r = << p.n1 + 1 >>
    [] e.x \in {"trlwe", "trlwefft", "encr", "lut"} -> e.r = << p.n1, p.n1 >>
    [] e.x = "trgsw" -> All(e.r, p.n1, 4 * p.l)
    [] e.x \in {"trgswfft", "dummy"} -> All(e.r, p.n1, 4 * p.l)
    [] e.x = "key" -> e.r = << p.n0, p.n1 >>
    \* evaluator: polynomial degree; decomposition buffers (2l, both kinds); scratch ciphertexts; block rotation buffers
    [] e.x \in {"eval", "copy"} ->
         /\ e.deg = p.n1 /\ e.dec = 2 * p.l
         /\ \A i \in 1 .. Len(e.lv0) : e.lv0[i] = p.n0 + 1
         /\ \A i \in 1 .. Len(e.ring) : e.ring[i] = p.n1
    [] e.x = "cloud" -> /\ e.bsk = p.n0 /\ e.ksk = p.n1 * p.t * 2 ^ p.basebit /\ e.test = << p.n1, p.n1 >>
                        /\ \A i \in 1 .. Len(e.row) : e.row[i] = p.n1
                        /\ Len(e.row) = 4 * p.l /\ e.kskrow = << p.n0 + 1 >>
    [] OTHER -> FALSE
TInit == l = 1 /\ cur = "128"
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.ev = "set" -> cur' = e.x
              [] e.ev = "get" -> UNCHANGED cur /\ Holds(GetOK(e))
              [] e.ev = "make" -> UNCHANGED cur /\ Holds(MakeOK(e))
              [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
