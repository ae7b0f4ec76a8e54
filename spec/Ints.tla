--------------------------------- MODULE Ints ---------------------------------
(* Enumerates small integer systems and orbitals: antisymmetry, blocks, and the  *)
(* reference energy rebuilt from the spin-orbital quantities is the functional.  *)
EXTENDS IntOps
CONSTANTS Vals, Cs
VARIABLES sys
Sym2(a, b, d) == << <<a, b>>, <<b, d>> >>
Eri2(a, b, d) == [p \in 1..2 |-> [q \in 1..2 |-> [r \in 1..2 |-> [t \in 1..2 |-> (a * (IF p = q THEN 1 ELSE b)) * (IF r = t THEN 1 ELSE b) + d]]]]
Coeff(k) == CASE k = 1 -> << <<1, 0>>, <<0, 1>> >> [] k = 2 -> << <<1, 1>>, <<-1, 0>> >> [] k = 3 -> << <<0, 2>>, <<1, 1>> >> [] OTHER -> << <<0, 1>>, <<-1, 3>> >>
None == [c |-> << >>]
Init == sys = None
Next == /\ sys = None
        /\ \E h1, e1, e2, g1, g2, g3 \in Vals, k \in Cs, cs \in BOOLEAN, nm \in {1, 2} :
               sys' = [c |-> Coeff(k), b |-> [z |-> <<1, -1>>, rt |-> <<2, 4>>, bb |-> <<0, 0>>, eb |-> 1],
                      y |-> [h |-> Sym2(h1, 2, 1), eri |-> Eri2(e1, e2, 1), s |-> Sym2(2, 1, 1), si |-> Sym2(1, -1, 2), g |-> IF nm = 1 THEN << Sym2(g1, g2, g3) >> ELSE << Sym2(g1, g2, g3), Sym2(g2, g1, -g3) >>,
                             q |-> << Sym2(1, 0, -2), Sym2(0, 1, 0) >>, n |-> 2, dse |-> TRUE, cb |-> FALSE, cs |-> cs]]
Spec == Init /\ [][Next]_sys
A == AntiAll(MoEri(sys.y, sys.c), 2)
Antisymmetric == sys = None \/ \A a \in {A} : \A p, q, r, s \in 1..4 : a[p][q][r][s] = -a[q][p][r][s] /\ a[p][q][r][s] = -a[p][q][s][r] /\ a[p][q][r][s] = a[r][s][p][q]
(* F = one-body + mean field: its trace over occupied spin orbitals counts the   *)
(* two-electron energy twice; the one-body part is complete, so that             *)
(* sum F_ii - 1/2 sum <ij||ij> is the energy when tr(D s) = n                    *)
RefIsEnergy == sys = None \/ LET d == Dens(sys.c, 1)  y == sys.y IN
   (Tr2(d, y.s) = y.n) => RefEnergy(MoMat(Fock(y, sys.b, d), sys.c), A, 1, 2, y.n) = 2 * y.n * Energy(y, sys.b, d)
===============================================================================
