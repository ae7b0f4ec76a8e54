------------------------------ MODULE MixedTrace ------------------------------
(* Judges recorded evaluations of the real trial / walkers / propagator         *)
(* estimators.  Every recorded value v with denominator den is stored as        *)
(* v * |den|^2, so the specification's numerator times conj(den) must equal it. *)
EXTENDS MixedOps, Judge
Eq(a, b) == a[1] = b[1] /\ a[2] = b[2]
MEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Eq(a[i][j], b[i][j])
MScale(k, m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> CScale(k, m[i][j])]]
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN C1 ELSE CZ]]
(* green: the half-rotated Green's function is phi s^{-1}                       *)
HalfOK(psi, phi, gh) ==
  LET s == Ovl(psi, phi)  d2 == CNorm2(Det(s)) IN
    /\ MEq(TLCEval(AdjMul(psi, gh)), MScale(d2, Id(Len(s))))
    /\ MEq(TLCEval(MMul(gh, s)), MScale(d2, phi))
WalkerFails(e, k) ==
  LET x == e.walkers[k]
      a == [psi |-> e.psia, phi |-> x.phia]
      b == [psi |-> e.psib, phi |-> x.phib]
      da == TLCEval(Overlap(a.psi, a.phi))  db == TLCEval(Overlap(b.psi, b.phi))
      den == CMul(da, db)  d2 == CNorm2(den)
      e1 == TLCEval(CMul(One2(a, b, e.h), CConj(den)))
      e2 == TLCEval(CMul(Two2All(a, b, e.ls), CConj(den)))
      bo == IF e.boson THEN TLCEval(BOvl(e.bpsi, x.bphi)) ELSE C1
      b2 == CNorm2(bo)
      eb == IF e.boson THEN TLCEval(CMul(BNum(e.bpsi, x.bphi, e.om), CConj(bo))) ELSE CZ
      G(m) == CMul(CMul(One2(a, b, e.geb[m]), CConj(den)), CMul(BQ(e.bpsi, x.bphi, m), CConj(bo)))
      eg == IF e.boson THEN TLCEval(CSumOver(G, 1, Len(e.geb))) ELSE CZ
      eloc == CAdd(CAdd(CScale(2 * b2, CAdd(e1, CScale(e.enuc * d2, C1))), CScale(b2, e2)),
                   CAdd(CScale(2 * d2, eb), CScale(2, eg)))
  IN (IF ~Eq(x.ovlp, den) \/ ~Eq(x.ovlp2, den) THEN {"overlap of trial and walker"} ELSE {})
     \cup (IF ~HalfOK(a.psi, a.phi, x.gha) \/ (e.ncomp = 2 /\ ~HalfOK(b.psi, b.phi, x.ghb))
           THEN {"Green's function of trial and walker"} ELSE {})
     \cup (IF \E n \in 1..Len(e.ls) : ~Eq(x.vbias[n], CMul(One2(a, b, e.ls[n]), CConj(den)))
           THEN {"force bias is the mixed expectation of each field operator"} ELSE {})
     \cup (IF ~Eq(x.eloc, eloc) THEN {"local energy is the mixed expectation of the Hamiltonian"} ELSE {})
     \cup (IF e.boson /\ ~Eq(x.bovlp, bo) THEN {"boson overlap"} ELSE {})
(* ensemble sums returned by the propagator, all denominators one               *)
SumFails(e) ==
  IF ~e.sums THEN {} ELSE
  LET W(k) == e.walkers[k].w
      RE(k) == e.walkers[k].eloc[1]
      e1(k) == LET x == e.walkers[k]
                   a == [psi |-> e.psia, phi |-> x.phia]
                   b == [psi |-> e.psib, phi |-> x.phib]
                   den == CMul(Overlap(a.psi, a.phi), Overlap(b.psi, b.phi))
               IN CMul(One2(a, b, e.h), CConj(den))[1]
      e2(k) == LET x == e.walkers[k]
                   a == [psi |-> e.psia, phi |-> x.phia]
                   b == [psi |-> e.psib, phi |-> x.phib]
                   den == CMul(Overlap(a.psi, a.phi), Overlap(b.psi, b.phi))
               IN CMul(Two2All(a, b, e.ls), CConj(den))[1]
      n == Len(e.walkers)
  IN (IF e.norm # SumOver(W, 1, n) THEN {"measured weight is the total weight"} ELSE {})
     \cup (IF e.etot # SumOver(LAMBDA k : W(k) * RE(k), 1, n) THEN {"measured energy is the weighted sum of local energies"} ELSE {})
     \cup (IF e.e1 # SumOver(LAMBDA k : 2 * W(k) * e1(k), 1, n) \/ e.e2 # SumOver(LAMBDA k : W(k) * e2(k), 1, n)
           THEN {"measured energy components are the weighted sums"} ELSE {})
Forms(e) ==   \* the same run in several formulations
  IF \E i \in 1..Len(e.outcome) : e.outcome[i] # "ok" THEN {"the run completes in every formulation"}
  ELSE IF \E i \in 2..Len(e.series) :
            Len(e.series[i]) # Len(e.series[1]) \/ \E k \in 1..Len(e.series[1]) : Abs(e.series[i][k] - e.series[1][k]) > 30
       THEN {"results do not depend on spin formulation, orbital basis or idle fields"} ELSE {}
(* stand-alone estimators; all overlaps have modulus one, so multiplying by the *)
(* conjugate divides by them                                                    *)
GreenOK(psi, phi, den, g) == LET n == Len(phi) IN Len(g) = n /\ \A p \in 1..n : Len(g[p]) = n /\
   \A q \in 1..n : Eq(g[p][q], CMul(One(psi, Unit(n, p, q), phi), CConj(den)))
PartFails(e, k) ==
  LET x == e.walkers[k]
      da == TLCEval(Overlap(e.psia, x.phia))  db == TLCEval(Overlap(e.psib, x.phib))
      A(o) == CMul(One(e.psia, o, x.phia), CConj(da))
      B(o) == CMul(One(e.psib, o, x.phib), CConj(db))
      Sq(c) == CMul(c, c)
      n == Len(e.ls)
      ec  == TLCEval(CSumOver(LAMBDA i : Sq(CAdd(A(e.ls[i]), B(e.ls[i]))), 1, n))
      eca == TLCEval(CSumOver(LAMBDA i : Sq(A(e.ls[i])), 1, n))
      two == TLCEval(CSumOver(LAMBDA i : CMul(Two(e.psia, e.ls[i], x.phia), CConj(da)), 1, n))
      exa == CSub(eca, two)
      eb  == TLCEval(CSumOver(LAMBDA i : Sq(B(e.ls[i])), 1, n))
      twb == TLCEval(CSumOver(LAMBDA i : CMul(Two(e.psib, e.ls[i], x.phib), CConj(db)), 1, n))
      sp == CAdd(CScale(2, CAdd(A(e.h), B(e.h))), CSub(ec, CAdd(exa, CSub(eb, twb))))
      cs == CAdd(CScale(2, A(e.h)), CSub(CScale(2, eca), exa))
  IN (IF \E g \in Range(x.ova) : ~Eq(Det(g), da) THEN {"overlap kernels agree with the overlap"} ELSE {})
     \cup (IF \E g \in Range(x.ovb) : ~Eq(Det(g), db) THEN {"overlap kernels agree with the overlap"} ELSE {})
     \cup (IF (\E g \in Range(x.gha) : ~HalfOK(e.psia, x.phia, g)) \/ (\E g \in Range(x.ghb) : ~HalfOK(e.psib, x.phib, g))
           THEN {"Green's function of trial and walker"} ELSE {})
     \cup (IF (\E g \in Range(x.ga) : ~GreenOK(e.psia, x.phia, da, g)) \/ (\E g \in Range(x.gb) : ~GreenOK(e.psib, x.phib, db, g))
           THEN {"full Green's function is the mixed one-body density"} ELSE {})
     \cup (IF ~Eq(x.e1a, A(e.h)) THEN {"one-body energy of one spin"} ELSE {})
     \cup (IF (\E v \in Range(x.ecoul) : ~Eq(v, ec)) \/ (\E v \in Range(x.ecoula) : ~Eq(v, eca)) THEN {"Coulomb energy"} ELSE {})
     \cup (IF \E v \in Range(x.exxa) : ~Eq(v, exa) THEN {"exchange energy"} ELSE {})
     \cup (IF \E v \in Range(x.spin) : ~Eq(v, sp) THEN {"local energy from the spin-resolved Green's functions"} ELSE {})
     \cup (IF \E v \in Range(x.closed) : ~Eq(v, cs) THEN {"closed-shell local energy from the Green's function"} ELSE {})
RECURSIVE IPow(_, _)
IPow(z, n) == IF n = 0 THEN 1 ELSE z * IPow(z, n - 1)
Coherent(e) == IF e.outcome # "ok" THEN {"the coherent trial state can be built"} ELSE
     (IF e.norm # 1 THEN {"the boson trial state is normalised"} ELSE {})
     \cup (IF e.size # SumOver(LAMBDA m : e.dims[m], 1, Len(e.dims)) \/
              \E m \in 1..Len(e.dims) : e.rel[m] # [i \in 1..e.dims[m] |-> IPow(e.z[m], i - 1)]
           THEN {"the boson trial state is coherent in every mode"} ELSE {})
MFailing(e) == IF e.kind = "forms" THEN Forms(e)
               ELSE IF e.kind = "coherent" THEN Coherent(e)
               ELSE IF e.kind = "parts" THEN (IF e.outcome # "ok" THEN {"estimators evaluate"} ELSE UNION {PartFails(e, k) : k \in 1..Len(e.walkers)})
               ELSE IF e.outcome # "ok" THEN {"estimators evaluate"}
               ELSE UNION {WalkerFails(e, k) : k \in 1..Len(e.walkers)} \cup SumFails(e)
===============================================================================
