------------------------------- MODULE VarTrace ------------------------------
EXTENDS VarOps, Judge
Near(a, b, tol) == Abs(a - b) <= tol
AllNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
VarFailing(e) ==
  IF e.oc # "ok" THEN {e.what} ELSE
  CASE e.op = "pack" -> (IF e.packed = PackVar(e.s, e.o) THEN {} ELSE {"the packed vector holds what is optimised, in order"})
                        \cup (IF e.gpacked = PackVar(e.gr, e.o) THEN {} ELSE {"gradients are packed like the parameters"})
    [] e.op = "set" -> (IF e.after = UnpackVar(e.v, e.s, e.o) THEN {} ELSE {"every parameter is read back from its place"})
                       \cup (IF \A m \in 1..Len(e.after.f) : e.res[m] = 1000 - e.after.f[m] THEN {} ELSE {"the residual coupling follows the coupling"})
                       \cup (IF e.fock = e.fin THEN {} ELSE {"the Fock matrix is read back from its place"})
    [] e.op = "step" -> (IF e.after = StepVar(e.s, e.gr, e.o, e.k) THEN {} ELSE {"a step moves what is optimised against its gradient"})
                        \cup (IF \A m \in 1..Len(e.after.f) : e.res[m] = 1000 - e.after.f[m] THEN {} ELSE {"the residual coupling follows the coupling"})
    [] e.op = "energy" -> IF Near(e.e, VarEnergy(e.y, e.x, e.d), e.tol) THEN {} ELSE {"the energy is the dressed functional"}
    (* energy differences in 10^-6 against mean Fock matrix                          *)
    [] e.op = "quadratic" -> IF \A k \in 1..Len(e.de) : Near(e.de[k], e.tr[k], 20) THEN {} ELSE {"energy differences follow from the Fock matrices"}
    (* derivatives in 10^-6                                                          *)
    [] e.op = "grad" -> (IF AllNear(e.geta, e.neta, 30) THEN {} ELSE {"the gradient with respect to the orbital displacements is the energy's derivative"})
                        \cup (IF AllNear(e.gf, e.nf, 30) THEN {} ELSE {"the gradient with respect to the coupling is the energy's derivative"})
                        \cup (IF AllNear(e.gr, e.nr, 30) THEN {} ELSE {"the gradient with respect to the squeezing is the energy's derivative"})
    [] e.op = "same" -> IF \A k \in 1..Len(e.v) : AllNear(e.v[k], e.v[1], e.tol) THEN {} ELSE {e.what}
    [] e.op = "min" -> IF \A k \in 1..Len(e.others) : e.v <= e.others[k] + e.tol THEN {} ELSE {e.what}
    [] OTHER -> {"unknown event"}
===============================================================================
