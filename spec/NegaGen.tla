------------------------------ MODULE NegaGen -------------------------------
(* Programs over polynomial registers P and transform registers F.  The
   generator tracks a bound on the magnitude of every register (in bits, the
   coefficients taken as signed) and emits a product only when the exact
   result stays below 2^46, i.e. within what the transform can represent.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
LogN == atoi(IOEnv.LOGN)
Depth == atoi(IOEnv.DEPTH)
PR == 1 .. 4
FR == 1 .. 3
Top == 46
Mag(kind) == CASE kind \in {"full", "edge", "even", "const", "s31"} -> 31
               [] kind = "mid" -> 14
               [] kind \in {"digit", "s6"} -> 6
               [] OTHER -> 1
Kinds == {"full", "edge", "bin", "digit", "mid", "mono", "zero", "even", "const", "s31", "s6"}
VARIABLES cat, pm, fm, fe, pe, hist, done   \* 0: register not available
vars == << cat, pm, fm, fe, pe, hist, done >>
Max(x, y) == IF x > y THEN x ELSE y
Init == pm = [r \in PR |-> 0] /\ fm = [r \in FR |-> 0] /\ pe = [r \in PR |-> FALSE] /\ fe = [r \in FR |-> FALSE]
        /\ hist = <<>> /\ done = FALSE /\ cat = ""
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r) /\ cat' = "" /\ UNCHANGED done
SetP(d, m, ev) == pm' = [pm EXCEPT ![d] = Max(1, IF m > 31 THEN 31 ELSE m)] /\ pe' = [pe EXCEPT ![d] = ev] /\ UNCHANGED << fm, fe >>
SetF(d, m, ev) == fm' = [fm EXCEPT ![d] = m] /\ fe' = [fe EXCEPT ![d] = ev] /\ UNCHANGED << pm, pe >>
HP(r) == pm[r] > 0
HF(r) == fm[r] > 0
Load == \E d \in PR, kind \in Kinds : SetP(d, Mag(kind), kind = "even") /\ Log([op |-> "load", d |-> d, kind |-> kind])
PMul == \E d, a, b \in PR, o \in {"mul", "mulassign", "muladd", "mulsub"} :
          /\ HP(a) /\ HP(b) /\ pm[a] + pm[b] + LogN <= Top
          /\ (o \in {"muladd", "mulsub"} => HP(d))
          /\ SetP(d, IF o \in {"muladd", "mulsub"} THEN 31 ELSE pm[a] + pm[b] + LogN, FALSE)
          /\ Log([op |-> o, d |-> d, a |-> a, b |-> b])
PCopy == \E d, a \in PR, o \in {"copy", "clear"} : HP(a) /\ (o = "clear" => a = d) /\ SetP(d, IF o = "copy" THEN pm[a] ELSE 1, FALSE)
          /\ Log([op |-> o, d |-> d, a |-> a])
Rot == \E d, a \in PR, o \in {"rot", "rotip", "rotdirect"}, k \in 0 .. 11 :
          HP(a) /\ (o # "rot" => a # d) /\ SetP(d, pm[a], FALSE) /\ Log([op |-> o, d |-> d, a |-> a, k |-> k])
Forward == \E d \in FR, a \in PR, o \in {"fwd", "fwdassign"} : HP(a) /\ SetF(d, pm[a], pe[a]) /\ Log([op |-> o, d |-> d, a |-> a])
FBin == \E d, a, b \in FR, o \in {"fadd", "fsub", "faddassign", "fsubassign"} :
          HF(a) /\ HF(b) /\ Max(fm[a], fm[b]) < Top /\ SetF(d, Max(fm[a], fm[b]) + 1, FALSE) /\ Log([op |-> o, d |-> d, a |-> a, b |-> b])
FMul == \E d, a, b \in FR, o \in {"fmul", "fmulassign", "fmuladd", "fmulsub"} :
          /\ HF(a) /\ HF(b) /\ fm[a] + fm[b] + LogN < Top
          /\ (o \in {"fmuladd", "fmulsub"} => HF(d) /\ fm[d] < Top)
          /\ SetF(d, IF o \in {"fmuladd", "fmulsub"} THEN Max(fm[d], fm[a] + fm[b] + LogN) + 1 ELSE fm[a] + fm[b] + LogN, FALSE)
          /\ Log([op |-> o, d |-> d, a |-> a, b |-> b])
\* k codes the factor: -3, -1, 0, 1, 2, 5 and, for even polynomials, a half
FScale == \E d, a \in FR, o \in {"ffloat", "ffloatadd"}, k \in 0 .. 6 :
          /\ HF(a) /\ fm[a] + 4 < Top /\ (k = 6 => fe[a]) /\ (o = "ffloatadd" => HF(d) /\ fm[d] < Top)
          /\ SetF(d, IF o = "ffloatadd" THEN Max(fm[d], fm[a] + 3) + 1 ELSE fm[a] + 3, FALSE)
          /\ Log([op |-> o, d |-> d, a |-> a, k |-> k])
FCopy == \E d, a \in FR, o \in {"fcopy", "fcopyfrom", "fclear"} : HF(a) /\ (o = "fclear" => a = d)
          /\ (o = "fcopyfrom" => a # d)
          /\ SetF(d, IF o = "fclear" THEN 1 ELSE fm[a], IF o = "fclear" THEN TRUE ELSE fe[a]) /\ Log([op |-> o, d |-> d, a |-> a])
Back == \E d \in PR, a \in FR, o \in {"back", "backassign"} : HF(a) /\ SetP(d, fm[a], FALSE) /\ Log([op |-> o, d |-> d, a |-> a])
BackU == \E d \in PR, a \in FR, o \in {"backunsafe", "backadd", "backsub"} :
          /\ HF(a) /\ (o # "backunsafe" => HP(d))
          /\ pm' = [pm EXCEPT ![d] = 31] /\ pe' = [pe EXCEPT ![d] = FALSE] /\ fm' = [fm EXCEPT ![a] = 0] /\ UNCHANGED fe
          /\ Log([op |-> o, d |-> d, a |-> a])
\* sum of two products through the evaluator's named buffers
Buf == \E d, a, b \in PR, x, y \in FR, i \in {RandomElement({0, 1, 7})}, j \in {RandomElement({0, 1, 7})},
          via \in {RandomElement({"infft", "copy"})}, nm \in {RandomElement({"fpAcc", "fpBcc"})} :
          /\ HP(a) /\ HP(b) /\ HF(x) /\ HF(y) /\ i # j
          /\ pm[a] + fm[x] + LogN < Top /\ pm[b] + fm[y] + LogN < Top
          /\ SetP(d, 31, FALSE)
          /\ Log([op |-> "bufprod", d |-> d, a |-> a, b |-> b, x |-> x, y |-> y, i |-> i, j |-> j, via |-> via, nm |-> nm])
Switch == \E k \in 1 .. 3 : Log([op |-> "switch", k |-> k]) /\ UNCHANGED << pm, pe, fm, fe >>
\* a category first, then an operation of it: otherwise the operations with many
\* parameters would crowd out the others
Cats == << "load", "load", "pmul", "pmul", "pcopy", "rot", "fwd", "fwd", "fbin", "fmul", "fmul", "fscale", "fcopy", "back", "backu", "buf", "switch" >>
Pick == cat = "" /\ Len(hist) < Depth /\ (\E i \in 1 .. Len(Cats) : cat' = Cats[i]) /\ UNCHANGED << pm, pe, fm, fe, hist, done >>
Skip == cat # "" /\ cat' = "" /\ UNCHANGED << pm, pe, fm, fe, hist, done >>
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << cat, pm, pe, fm, fe, hist >>
Next == Pick \/ Skip \/ Stop
        \/ (cat = "load" /\ Load) \/ (cat = "pmul" /\ PMul) \/ (cat = "pcopy" /\ PCopy) \/ (cat = "rot" /\ Rot)
        \/ (cat = "fwd" /\ Forward) \/ (cat = "fbin" /\ FBin) \/ (cat = "fmul" /\ FMul) \/ (cat = "fscale" /\ FScale)
        \/ (cat = "fcopy" /\ FCopy) \/ (cat = "back" /\ Back) \/ (cat = "backu" /\ BackU) \/ (cat = "buf" /\ Buf) \/ (cat = "switch" /\ Switch)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
