----------------------------- MODULE HeapCalls ------------------------------
(* The public calls with the kinds of their operands and what each may write:
     new     nothing but the new object(s) it returns
     out     its explicit output
     outc    its output and its first operand ("Unsafe" transforms, which
             document that they use their operand as scratch)
     none    nothing
   Kinds: c0, c1 level-0/1 ciphertexts; r1 ring ciphertext; g gadget
   ciphertext; gf the same transformed; rf ring ciphertext transformed; t
   table; p polynomial; f transformed polynomial; sk, ck, pk, rk keys;
   ge table generator; bl bit list.                                         *)
EXTENDS Sequences
S(c, in, out, eff) == [c |-> c, in |-> in, out |-> out, eff |-> eff]
Lin2 == {S(c, << "c0", "c0" >>, "c0", "new") : c \in {"add", "sub", "mul", "addmul", "submul", "pnand", "pand", "por", "pxor"}}
Gate2 == {S(c, << "c0", "c0", "ck" >>, "c0", "new") : c \in {"AND", "OR", "NAND", "NOR", "XOR", "XNOR", "ANDNY", "ANDYN", "ORNY", "ORYN"}}
Batch == {S(c, << "c0", "c0", "c0", "ck" >>, "c0", "new") : c \in {"bAND", "bOR", "bNAND", "bNOR", "bXOR", "bXNOR"}}
Others == {
  S("neg", << "c0" >>, "c0", "new"), S("not", << "c0" >>, "c0", "new"), S("copy", << "c0" >>, "c0", "new"), S("const", <<>>, "c0", "new"),
  S("addassign", << "c0", "c0" >>, "c0", "out"),
  S("mux", << "c0", "c0", "c0", "ck" >>, "c0", "new"),
  S("enc0", << "sk" >>, "c0", "out"), S("encb0", << "sk" >>, "c0", "out"), S("encm0", << "sk" >>, "c0", "out"),
  S("dec0", << "c0", "sk" >>, "", "none"), S("decm0", << "c0", "sk" >>, "", "none"),
  S("setb0", <<>>, "c0", "out"),
  S("enc1", << "sk" >>, "c1", "out"), S("encb1", << "sk" >>, "c1", "out"), S("dec1", << "c1", "sk" >>, "", "none"),
  S("encr", << "sk" >>, "r1", "out"), S("encbr", << "sk" >>, "r1", "out"), S("decr", << "r1", "sk" >>, "", "none"),
  S("ext", << "r1" >>, "c1", "new"), S("extassign", << "r1" >>, "c1", "out"),
  S("ks", << "c1", "ck" >>, "c0", "new"), S("ksassign", << "c1", "ck" >>, "c0", "out"),
  S("boot", << "c0", "ck" >>, "", "none"), S("bootassign", << "c0", "ck" >>, "c0", "out"),
  S("bootlut", << "c0", "t", "ck" >>, "c0", "new"), S("bootlutassign", << "c0", "t", "ck" >>, "c0", "out"), S("bootluttemp", << "c0", "t", "ck" >>, "", "none"),
  S("bootfunc", << "c0", "ck" >>, "c0", "new"), S("bootfuncassign", << "c0", "ck" >>, "c0", "out"),
  S("brassign", << "c0", "r1", "ck" >>, "r1", "out"), S("br", << "c0", "r1", "ck" >>, "", "none"), S("bbr", << "c0", "c0", "r1", "ck" >>, "r1", "new"),
  S("xpassign", << "r1", "gf" >>, "r1", "out"), S("xp", << "r1", "gf" >>, "", "none"),
  S("cmuxassign", << "r1", "r1", "gf" >>, "r1", "out"), S("cmux", << "r1", "r1", "gf" >>, "", "none"),
  S("encg", << "sk" >>, "g", "out"), S("tofft", << "g" >>, "gf", "new"), S("rfft", << "r1" >>, "rf", "new"),
  S("gen", << "ge" >>, "t", "new"), S("genassign", << "ge" >>, "t", "out"), S("full", << "ge" >>, "t", "new"), S("fullassign", << "ge" >>, "t", "out"),
  S("custom", << "ge" >>, "t", "new"), S("tcopy", << "t" >>, "t", "new"), S("tcopyfrom", << "t" >>, "t", "out"), S("tclear", <<>>, "t", "out"),
  S("mulp", << "p", "p" >>, "p", "new"), S("mulpassign", << "p", "p" >>, "p", "out"), S("muladdp", << "p", "p" >>, "p", "out"), S("mulsubp", << "p", "p" >>, "p", "out"),
  S("rotp", << "p" >>, "p", "out"), S("rotdirect", << "p" >>, "p", "out"), S("rotpool", << "p" >>, "", "none"), S("pcopy", << "p" >>, "p", "new"), S("pclear", <<>>, "p", "out"),
  S("tof", << "p" >>, "f", "new"), S("tofassign", << "p" >>, "f", "out"), S("top", << "f" >>, "p", "new"), S("topassign", << "f" >>, "p", "out"),
  S("topunsafe", << "f" >>, "p", "outc"), S("topaddunsafe", << "f" >>, "p", "outc"), S("topsubunsafe", << "f" >>, "p", "outc"),
  S("fadd", << "f", "f" >>, "f", "new"), S("fsub", << "f", "f" >>, "f", "new"), S("fmul", << "f", "f" >>, "f", "new"), S("fcopy", << "f" >>, "f", "new"),
  S("faddassign", << "f", "f" >>, "f", "out"), S("fsubassign", << "f", "f" >>, "f", "out"), S("fmulassign", << "f", "f" >>, "f", "out"),
  S("fmuladd", << "f", "f" >>, "f", "out"), S("fmulsub", << "f", "f" >>, "f", "out"), S("fscale", << "f" >>, "f", "out"), S("fscaleadd", << "f" >>, "f", "out"),
  S("fcopyfrom", << "f" >>, "f", "out"), S("fclear", <<>>, "f", "out"),
  S("decomp", << "p" >>, "", "none"),
  S("newsk", <<>>, "sk", "new"), S("newpk", << "sk" >>, "pk", "new"), S("symrk", << "sk", "sk" >>, "rk", "new"), S("asymrk", << "sk", "pk" >>, "rk", "new"),
  S("reenc", << "c0", "rk" >>, "c0", "new"), S("pkenc", << "pk" >>, "c0", "new"), S("pkencb", << "pk" >>, "c0", "new"),
  S("encbits", << "bl", "sk" >>, "c0", "new"), S("decbits", << "c0", "c0", "sk" >>, "", "none"),
  S("newck", << "sk" >>, "ck", "new") }
Sigs == Lin2 \cup Gate2 \cup Batch \cup Others
Calls == {s.c : s \in Sigs}
SigOf == [c \in Calls |-> CHOOSE s \in Sigs : s.c = c]
=============================================================================
