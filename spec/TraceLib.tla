------------------------------ MODULE TraceLib -----------------------------
(* Common part of the trace specifications.  The file named by the
   environment variable TRACE holds one recorded event per line.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* accepted when every recorded line was consumed: one state per line plus
   the initial one                                                         *)
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"CONSUMED", d, Len(Trace)>>) /\ d = Len(Trace)
(* a guard evaluated as an expression: TLC would otherwise explore the
   quantifiers of a guard inside an action as branching points              *)
Holds(p) == p = TRUE
Has(e, f) == f \in DOMAIN e
=============================================================================
