------------------------------ MODULE FockTrace ------------------------------
EXTENDS FockOps, Judge
Sp(e) == Space(e.norb, e.na, e.nb, e.top)
F(v) == TLCEval([i \in 1..Len(v) |-> v[i] * S])
El == 2        \* tolerances in units of 10^-4
Bo == 400
Near(e, x, tol) == e.oc = "ok" /\ VNear(e.out, x, tol)
Good(e) ==
  LET sp == Sp(e) IN
  CASE e.op = "shape"  -> e.oc = "ok" /\ e.out = <<Len(sp.qa), Len(sp.qb)>> \o [k \in 1..Len(e.top) |-> e.top[k] + 1]
    [] e.op = "1e"     -> Near(e, OneBody(sp, e.h, F(e.v)), El)
    [] e.op = "2e"     -> Near(e, TwoBodySF(sp, e.g, F(e.v)), El)
    [] e.op = "2espin" -> Near(e, TwoBodySpin(sp, e.g, e.gab, e.gbb, F(e.v)), El)
    [] e.op = "hub"    -> Near(e, Hubbard(sp, e.u, F(e.v)), El)
    [] e.op = "cre"    -> Near(e, Cre(sp, e.mode, F(e.v)), Bo)
    [] e.op = "des"    -> Near(e, Des(sp, e.mode, F(e.v)), Bo)
    [] e.op = "bb"     -> Near(e, VAdd(BB(sp, e.w, F(e.v)), IF Len(e.z) = 0 THEN VZero(sp) ELSE
                              Shift(sp, [k \in 1..Len(e.top) |-> SumOver(LAMBDA l : e.w[k][l] * e.z[l], 1, Len(e.top))], F(e.v))), Bo)
    [] e.op = "eb"     -> Near(e, EB(sp, e.geb, F(e.v)), Bo)
    [] e.op = "ebsite" -> Near(e, EBSite(sp, e.gs, e.na + e.nb, F(e.v)), Bo)          \* out is times nmode
    [] e.op = "all"    -> Near(e, VAdd(TwoHel(sp, e.h, e.g, F(e.v)), VScale(2, VAdd(EB(sp, e.geb, F(e.v)), BB(sp, e.w, F(e.v))))), Bo)   \* out is twice H v
    [] e.op = "rdm1e"  -> e.oc = "ok" /\ \A p, q \in 0..(e.norb - 1) :
                              e.rdm1[p + 1][q + 1] = Dot(e.v, VAdd(E(sp, e.v, 1, p, q), E(sp, e.v, 2, p, q)))
    [] e.op = "rdm2e"  -> e.oc = "ok" /\ LET Et(x, p, q) == VAdd(E(sp, x, 1, p, q), E(sp, x, 2, p, q))
                              T == TLCEval([pq \in 0..(e.norb * e.norb - 1) |-> Et(e.v, pq \div e.norb, pq % e.norb)])
                          IN \A p, q, r, s \in 0..(e.norb - 1) :
                                e.rdm2[p + 1][q + 1][r + 1][s + 1] =
                                  Dot(T[(q * e.norb) + p], T[(r * e.norb) + s]) - (IF q = r THEN Dot(e.v, T[(p * e.norb) + s]) ELSE 0)
    [] e.op = "rdm1p"  -> e.oc = "ok" /\ LET D == TLCEval([k \in 1..Len(e.top) |-> Des(sp, k, F(e.v))])
                          IN \A k, l \in 1..Len(e.top) : Abs(e.rdm1[k][l] - SumOver(LAMBDA i : FMul(D[k][i], D[l][i]), 1, Dim(sp))) <= Bo
    [] OTHER -> FALSE
(* the solver: (e, c) solves the eigenvalue equation of the specified Hamiltonian,  *)
(* e is no higher than any trial vector's energy, and does not depend on the start  *)
TwoH(e, sp, v) == VAdd(TwoHel(sp, e.h, e.g, v), VScale(2, VAdd(EB(sp, e.geb, v), BB(sp, e.w, v))))
SolveFailing(e) ==
  IF e.oc # "ok" THEN {"the solver returns"} ELSE
  LET sp == Sp(e)
      r  == TwoH(e, sp, e.c)
      cc == [i \in 1..Dim(sp) |-> IF e.c[i] > 5000 \/ e.c[i] < -5000 THEN 1 ELSE 0]
  IN  {x \in {"the returned vector is normalised", "energy and vector solve the eigenvalue equation", "the energy is the lowest",
              "the energy does not depend on the starting vector"} :
        CASE x = "the returned vector is normalised" -> Abs(SumOver(LAMBDA i : FMul(e.c[i], e.c[i]), 1, Dim(sp)) - S) > 60
          [] x = "energy and vector solve the eigenvalue equation" -> \E i \in 1..Dim(sp) : Abs(r[i] - 2 * FMul(e.e - e.ecore, e.c[i])) > 300
          [] x = "the energy is the lowest" -> \E t \in 1..Len(e.trials) : LET v == F(e.trials[t])  hv == TwoH(e, sp, v) IN
                  2 * (e.e - e.ecore) * Dot(e.trials[t], e.trials[t]) > SumOver(LAMBDA i : hv[i] * e.trials[t][i], 1, Dim(sp)) + 400
          [] OTHER -> \E k \in 1..Len(e.others) : Abs(e.others[k] - e.e) > 30}
Name(e) == CASE e.op = "shape" -> "the vector has one entry per configuration"
   [] e.op \in {"1e", "2e", "2espin", "hub"} -> "the electronic contraction is the second-quantised operator"
   [] e.op \in {"cre", "des"} -> "boson creation and annihilation"
   [] e.op = "bb" -> "the boson Hamiltonian"
   [] e.op \in {"eb", "ebsite"} -> "the electron-boson coupling"
   [] e.op = "all" -> "the full Hamiltonian is the sum of its parts"
   [] OTHER -> "density matrices are expectation values"
FockFailing(e) == IF e.op = "solve" THEN SolveFailing(e)
                  ELSE IF e.op = "same" THEN (IF e.oc = "ok" /\ \A k \in 1..Len(e.es) : Abs(e.es[k] - e.es[1]) <= e.tol THEN {} ELSE {"the coherent-state representation gives the same energy"})
                  ELSE IF Good(e) THEN {} ELSE {Name(e)}
===============================================================================
