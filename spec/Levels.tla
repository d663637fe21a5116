------------------------------- MODULE Levels ------------------------------
(* Per-level noise limits used by the trace specifications, in units of
   2^-16 of the torus: at least eight standard deviations of the output noise
   the scheme predicts for a bootstrapped ciphertext (seven for U1, whose
   parameters are noisier by design).                                      *)
EXTENDS Integers
BootLim(lv) ==
  CASE lv = "80"  -> 2048
    [] lv = "110" -> 1600
    [] lv = "128" -> 1150
    [] lv = "U1"  -> 5000
    [] lv = "U2"  -> 950
    [] lv = "U3"  -> 1050
    [] lv = "U4"  -> 230
    [] lv = "U5"  -> 48
    [] OTHER -> 5000
=============================================================================
