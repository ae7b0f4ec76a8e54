------------------------------ MODULE MeanTrace ------------------------------
(* Energies are relative to that of the first description, in 10^-7 Hartree;     *)
(* d is the dipole (about the centre of charge) of the first description and z   *)
(* the displacements, in 10^-5.                                                 *)
EXTENDS MeanOps, Judge
SysFailing(e) ==
  IF ~SameCavity(e.modes, e.ms0, e.fr) THEN {"the driver left the model"} ELSE
  IF e.oc # "ok" THEN {"the calculation runs"} ELSE
  (IF e.conv THEN {} ELSE {"the calculation converges"})
  \cup (IF Abs(e.e) <= e.tol THEN {} ELSE {"the energy depends on method and geometry only"})
  \cup (IF ~e.hasz \/ \A i \in 1..Len(e.modes) : Abs(e.z[i] - RDiv(Dot3(e.modes[i].v, [k \in XYZ |-> RDiv(App(e.fr.m, e.d)[k], e.fr.s)]), 1000)) <= e.ztol THEN {} ELSE {"each mode is displaced by its own coupling to the dipole"})
MeanFailing(e) ==
  CASE e.op = "system" -> SysFailing(e)
    [] e.op = "same" -> IF e.oc = "ok" /\ \A k \in 1..Len(e.v) : Abs(e.v[k] - e.v[1]) <= e.tol THEN {} ELSE {e.what}
    [] e.op = "below" -> IF e.oc = "ok" /\ \A k \in 1..(Len(e.v) - 1) : e.v[k] <= e.v[k + 1] + e.tol THEN {} ELSE {e.what}
    [] e.op = "state" ->        \* what a finished calculation reports
         IF e.oc # "ok" THEN {"the calculation runs"} ELSE
         (IF ~e.converged \/ (Abs(e.de) <= e.tol) THEN {} ELSE {"the reported energy is that of the reported state"})
         \cup (IF ~e.converged \/ (Abs(e.next) <= e.tol) THEN {} ELSE {"a converged calculation is a fixed point"})
         \cup (IF ~e.converged \/ (Abs(e.comm) <= 300) THEN {} ELSE {"a converged state commutes with its Fock matrix"})
         \cup (IF e.orth <= 1 THEN {} ELSE {"orbitals are orthonormal"})
         \cup (IF e.nocc = e.nelec /\ e.aufbau THEN {} ELSE {"the lowest orbitals hold all electrons"})
         \cup (IF e.cycles <= e.max /\ (e.cycles < e.max => e.converged) THEN {} ELSE {"a calculation stops at convergence or at max_cycle"})
         \cup (IF e.max <= 2 => ~e.converged THEN {} ELSE {"an unfinished calculation is not called converged"})
    [] OTHER -> {"unknown event"}
===============================================================================
