----------------------------- MODULE EnergyTrace -----------------------------
EXTENDS EnergyOps, Judge
Y(e) == e.y
Scale(m, k) == [p \in 1..Len(m) |-> [q \in 1..Len(m) |-> k * m[p][q]]]
FunFailing(e) ==
  IF e.oc # "ok" THEN {"energy and Fock matrix can be computed"} ELSE
  LET f == Fock(e.y, e.b, e.d)  en == Energy(e.y, e.b, e.d)
      j == Coul(e.y, e.d)  k == Exch(e.y, e.d)
      jd(p, q) == IF e.y.dse THEN SumOver(LAMBDA m : Mu(e.y, e.d, m) * e.y.g[m][p][q], 1, NM(e.y)) ELSE 0
      kd == TLCEval([m \in 1..NM(e.y) |-> Gdg(e.y, e.d, m)])
  IN {x \in {"the energy is the QED-HF functional", "the Fock matrix is the functional's", "Coulomb and exchange include the dipole self-energy", "the coherent displacement follows the density",
             "the reported parts add up to the energy"} :
        CASE x = "the energy is the QED-HF functional" -> e.e200 # en
          [] x = "the Fock matrix is the functional's" -> e.f # f
          [] x = "Coulomb and exchange include the dipole self-energy" -> \E p, q \in 1..Nb(e.y) :
                 \/ e.vj[p][q] # j[p][q] + jd(p, q)
                 \/ e.vk[p][q] # k[p][q] + (IF e.y.dse THEN SumOver(LAMBDA m : kd[m][p][q], 1, NM(e.y)) ELSE 0)
          [] x = "the coherent displacement follows the density" -> \E m \in 1..NM(e.y) : e.z[m] # Disp(e.y, e.d, e.b.z, m)
          [] OTHER -> e.parts # en}
(* on molecules: energies relative to a reference in 10^-7, traces in 10^-7      *)
EnergyFailing(e) ==
  CASE e.op = "functional" -> FunFailing(e)
    [] e.op = "quadratic" -> IF e.oc = "ok" /\ \A k \in 1..Len(e.de) : Abs(e.de[k] - e.tr[k]) <= 20 THEN {} ELSE {"energy differences follow from the Fock matrices"}
    [] e.op = "same" -> IF e.oc = "ok" /\ \A k \in 1..Len(e.v) : Abs(e.v[k] - e.v[1]) <= e.tol THEN {} ELSE {e.what}
    [] e.op = "below" -> IF e.oc = "ok" /\ \A k \in 1..(Len(e.v) - 1) : e.v[k] <= e.v[k + 1] + e.tol THEN {} ELSE {e.what}
    [] e.op = "marginal" -> IF e.oc # "ok" THEN {"densities in the original representation"} ELSE
          LET n == Len(e.rb)  P == SumOver(LAMBDA k : e.rb[k][k], 1, n) IN
          (IF e.coherent => \A k \in 1..(n - 2) : Abs((e.rb[k + 2][k + 2] * (k + 1) * e.rb[1][1]) - (e.rb[2][2] * e.rb[k + 1][k + 1])) <= 10000 * (k + 1) THEN {} ELSE {"the boson density is that of a coherent state"})
          \cup (IF \A k, l \in 1..n : e.rb[k][l] = e.rb[l][k] /\ e.rb[k][k] >= -1 /\ (e.rb[k][l] * e.rb[k][l]) <= (e.rb[k][k] * e.rb[l][l]) + 20000 /\ (e.coherent => (e.rb[k][l] * e.rb[k][l]) + 20000 >= (e.rb[k][k] * e.rb[l][l])) THEN {} ELSE {"the boson density is a density matrix"})
          \cup (IF Abs(P - 10000) <= 10 THEN {} ELSE {"the boson density is normalised"})
          \cup (IF \A p, q \in 1..Len(e.re) : Abs(e.re[p][q] - e.rho[p][q]) <= 3 THEN {} ELSE {"the joint density has the electronic density as marginal"})
    [] OTHER -> {"unknown event"}
===============================================================================
