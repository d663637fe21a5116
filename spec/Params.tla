------------------------------- MODULE Params ------------------------------
(* The published parameter sets, one record per security level.
     n0, n1     LWE dimension, ring degree       nbit   log2 of the degree
     bgbit, l   gadget base bits and length      basebit, t   key switching
     blk        block size
     sd0, sd1   standard deviation of level-0 / level-1 noise in units of
                2^-32 (sd1 rounded up to 1 where it is below)
     m          message modulus the level is made for
     a0, a1     the same as published decimal numbers
     la0, la1   100 log2 of them, rounded up                               *)
EXTENDS Integers
LevelNames == {"80", "110", "128", "U1", "U2", "U3", "U4", "U5", "U6", "U7", "U8"}
P(n0, n1, nbit, bgbit, len, basebit, t, blk, sd0, sd1, m, a0, a1, la0, la1) ==
  [n0 |-> n0, n1 |-> n1, nbit |-> nbit, bgbit |-> bgbit, l |-> len, basebit |-> basebit, t |-> t, blk |-> blk,
   sd0 |-> sd0, sd1 |-> sd1, m |-> m, a0 |-> a0, a1 |-> a1, la0 |-> la0, la1 |-> la1]
Par(lv) ==
  CASE lv = "80"  -> P(550, 1024, 10, 6, 3, 2, 7, 3, 214748, 160, 2, "5e-05", "3.73e-08", -1428, -2467)
    [] lv = "110" -> P(630, 1024, 10, 6, 3, 2, 8, 3, 131072, 128, 2, "3.0517578125e-05", "2.980232238769531e-08", -1500, -2500)
    [] lv = "128" -> P(700, 1024, 10, 6, 3, 2, 9, 3, 85899, 86, 2, "2e-05", "2e-08", -1560, -2557)
    [] lv = "U1"  -> P(700, 1024, 10, 10, 2, 2, 8, 3, 85899, 86, 2, "2e-05", "2e-08", -1560, -2557)
    [] lv = "U2"  -> P(687, 512, 9, 18, 1, 4, 3, 3, 91090, 1, 4, "2.120846893069972e-05", "2.3184122752704995e-12", -1552, -3865)
    [] lv = "U3"  -> P(820, 1024, 10, 23, 1, 6, 2, 4, 10809, 1, 8, "2.5167616095979554e-06", "2.220446049250313e-16", -1860, -5200)
    [] lv = "U4"  -> P(820, 2048, 11, 22, 1, 5, 3, 4, 10809, 1, 16, "2.5167616095979554e-06", "2.220446049250313e-16", -1860, -5200)
    [] lv = "U5"  -> P(1071, 2048, 11, 22, 1, 6, 3, 7, 304, 1, 32, "7.08822676541043e-08", "2.2204460492503132e-17", -2375, -5532)
    [] lv = "U6"  -> P(1071, 2048, 11, 22, 1, 6, 3, 7, 304, 1, 64, "7.08822676541043e-08", "2.2204460492503132e-17", -2375, -5532)
    [] lv = "U7"  -> P(1160, 2048, 11, 22, 1, 7, 3, 8, 84, 1, 128, "1.9662200074984027e-08", "2.2204460492503132e-17", -2560, -5532)
    [] lv = "U8"  -> P(1160, 2048, 11, 22, 1, 7, 3, 8, 84, 1, 256, "1.9662200074984027e-08", "2.2204460492503132e-17", -2560, -5532)
=============================================================================
