------------------------------- MODULE LutFun -------------------------------
(* One generation, every function: larger sizes than the machine of LutGen. *)
EXTENDS LutGen
FInit == \E m \in Moduli : \E f \in Funs(m) : gm = m /\ tab = [t \in Tab |-> Table(f, m)] /\ fun = [t \in Tab |-> [m |-> m, f |-> f]]
FSpec == FInit /\ [][UNCHANGED vars]_vars
=============================================================================
