------------------------------- MODULE MixedOps -------------------------------
(* Mixed estimators <trial|O|walker>/<trial|walker> of Slater determinants,     *)
(* defined by replacing columns of the overlap matrix - no inverse, no Green's  *)
(* function.  All values are numerators; the overlap is the denominator.        *)
EXTENDS CArith, TLC
Ovl(psi, phi) == AdjMul(psi, phi)
Overlap(psi, phi) == Det(Ovl(psi, phi))
OpMat(psi, o, phi) == AdjMul(psi, MMul(o, phi))
(* <psi| sum o_pq a+_p a_q |phi>                                                *)
One(psi, o, phi) == LET s == Ovl(psi, phi)  x == OpMat(psi, o, phi)
                    IN CSumOver(LAMBDA i : Det(Replace(s, x, {i})), 1, Len(s))
(* <psi| sum o_pq o_rs a+_p a+_r a_s a_q |phi>                                  *)
Two(psi, o, phi) == LET s == Ovl(psi, phi)  x == OpMat(psi, o, phi)
                        n == Len(s)
                        F(i) == CSumOver(LAMBDA j : IF j = i THEN CZ ELSE Det(Replace(s, x, {i, j})), 1, n)
                    IN CSumOver(F, 1, n)
(* both spins: a, b are [psi, phi]; twice the two-body energy numerator         *)
One2(a, b, o) == CAdd(CMul(One(a.psi, o, a.phi), Overlap(b.psi, b.phi)),
                      CMul(Overlap(a.psi, a.phi), One(b.psi, o, b.phi)))
Two2(a, b, o) == CAdd(CAdd(CMul(Two(a.psi, o, a.phi), Overlap(b.psi, b.phi)),
                           CMul(Overlap(a.psi, a.phi), Two(b.psi, o, b.phi))),
                      CScale(2, CMul(One(a.psi, o, a.phi), One(b.psi, o, b.phi))))
Two2All(a, b, ls) == CSumOver(LAMBDA n : Two2(a, b, ls[n]), 1, Len(ls))
(* unit matrix element: a+_p a_q                                                *)
Unit(n, p, q) == [i \in 1..n |-> [j \in 1..n |-> IF i = p /\ j = q THEN C1 ELSE CZ]]
(* ---- bosons: component n of mode m is amplitude * sqrt(n!)                   *)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
(* psi, phi: one sequence of amplitudes per mode                                *)
BOvl(psi, phi) == CSumOver(LAMBDA m :
      CSumOver(LAMBDA k : CScale(Fact(k - 1), CMul(CConj(psi[m][k]), phi[m][k])), 1, Len(psi[m])), 1, Len(psi))
BNum(psi, phi, om) == CSumOver(LAMBDA m :
      CScale(om[m], CSumOver(LAMBDA k : CScale((k - 1) * Fact(k - 1), CMul(CConj(psi[m][k]), phi[m][k])), 1, Len(psi[m]))), 1, Len(psi))
(* <a + a^dagger> of mode m                                                     *)
BQ(psi, phi, m) == CSumOver(LAMBDA k : CScale(Fact(k),
      CAdd(CMul(CConj(psi[m][k]), phi[m][k + 1]), CMul(CConj(psi[m][k + 1]), phi[m][k]))), 1, Len(psi[m]) - 1)
===============================================================================
