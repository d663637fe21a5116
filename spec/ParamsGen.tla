------------------------------ MODULE ParamsGen ------------------------------
(* Histories of level selections, accessor calls and object creations.      *)
EXTENDS Params, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES cat, hist, done
vars == << cat, hist, done >>
Unknown == {0, 9, 10, 64, 79, 81, 100, 127, 129, 192, 256, -1, -80, 1000000}
Accessors == {"lwe0", "lwe1", "rlwe", "rgsw", "ksk", "bsk", "info", "blocks", "useblk"}
Objects == {"tlwe0", "tlwe1", "trlwe", "trlwefft", "trgsw", "trgswfft", "dummy", "key", "eval", "copy", "lut", "enc0", "enc1", "encr"}
Init == hist = <<>> /\ done = FALSE /\ cat = ""
Log(r) == hist' = Append(hist, r) /\ cat' = "" /\ UNCHANGED done
Choose == cat = "" /\ Len(hist) < Depth /\ cat' \in {"set", "unk", "get", "get2", "get3", "make", "make2"} /\ UNCHANGED << hist, done >>
Set == cat = "set" /\ \E lv \in LevelNames : Log([op |-> "set", x |-> lv, id |-> 0])
Unk == cat = "unk" /\ \E u \in Unknown : Log([op |-> "set", x |-> "?", id |-> u])
Get == cat \in {"get", "get2", "get3"} /\ \E a \in Accessors : Log([op |-> "get", x |-> a, id |-> 0])
Make == cat \in {"make", "make2"} /\ \E o \in Objects : Log([op |-> "make", x |-> o, id |-> 0])
Stop == Len(hist) = Depth /\ cat = "" /\ ~done /\ done' = TRUE /\ UNCHANGED << cat, hist >>
Next == Choose \/ Set \/ Unk \/ Get \/ Make \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================
