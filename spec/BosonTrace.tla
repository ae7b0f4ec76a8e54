------------------------------ MODULE BosonTrace -----------------------------
EXTENDS BosonOps, Judge
Near(a, b, tol) == Abs(a - b) <= tol
MNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(b[i]) : Near(a[i][j], b[i][j], tol)
(* ------------------------------- set-up --------------------------------------- *)
MakeFailing(e) ==
  LET c == e.c IN
  IF ~Accepted(c) THEN (IF e.oc = "raise ValueError" THEN {} ELSE {"a malformed set of modes is refused with a ValueError"})
  ELSE IF e.oc # "ok" THEN {"a well-formed set of modes is accepted"}
  ELSE LET n(m) == ISqrt(Norm2(c.vec[m]))
           g(m) == IF c.gkind = "none" THEN n(m) ELSE c.gfac[m]
       IN {x \in {"one mode per frequency", "frequencies are kept", "polarisation vectors are normalised", "the coupling is gfac, by default the length of the vector",
                  "bilinear coupling g sqrt(omega/2)", "self-energy coupling g^2/2", "residual coupling 1 - var", "every mode has its number of states",
                  "a given coherent amplitude switches to the Fock representation"} :
            CASE x = "one mode per frequency" -> e.nm # c.nm
              [] e.nm # c.nm -> FALSE
              [] x = "frequencies are kept" -> e.omega # c.omega
              [] x = "polarisation vectors are normalised" -> \E m \in 1..c.nm : \E k \in 1..3 : ~Near(e.vec[m][k] * n(m), c.vec[m][k] * S, 10)
              [] x = "the coupling is gfac, by default the length of the vector" -> \E m \in 1..c.nm : e.g[m] # g(m) \/ e.gf[m] # g(m)
              [] x = "bilinear coupling g sqrt(omega/2)" -> \E m \in 1..c.nm : ~Near(e.bil[m], FMul(g(m) * S, FSqrt(c.omega[m] * (S \div 200))), 30) \/ e.bil2[m] # g(m) * g(m) * c.omega[m]
              [] x = "self-energy coupling g^2/2" -> \E m \in 1..c.nm : e.self2[m] # g(m) * g(m)
              [] x = "residual coupling 1 - var" -> \E m \in 1..c.nm : e.res[m] # 100 - c.var[m]
              [] x = "every mode has its number of states" -> e.nb # States(c)
              [] OTHER -> e.cs # (c.zkind = "none") \/ (c.zkind # "none" /\ e.z # c.z)}
(* ------------------------------ state of the modes ----------------------------- *)
Blk(e, m, i) == Off(e.ns, m) + i
Za(e, m) == FMul(RDiv((100 - e.var[m]) * (SumOver(LAMBDA p : SumOver(LAMBDA q : e.dm[p][q] * e.g[m][p][q], 1, Len(e.dm)), 1, Len(e.dm)) - e.z[m]) * 100, 1), FSqrt(e.omega[m] * 50))
C0(e, m) == TLCEval([i \in 1..e.ns[m] |-> e.coef[Blk(e, m, i)]])
HV(h, v) == TLCEval([i \in 1..Len(h) |-> SumOver(LAMBDA j : FMul(h[i][j], v[j]), 1, Len(h))])
FDot(a, b) == SumOver(LAMBDA i : FMul(a[i], b[i]), 1, Len(a))
UpdFailing(e) ==
  IF e.oc # "ok" THEN {"the boson state can be updated"} ELSE
  LET hs == TLCEval([m \in 1..Len(e.ns) |-> ModeH(e.ns[m], e.omega[m] * 100, Za(e, m), e.r[m] * 100)])
      cs == TLCEval([m \in 1..Len(e.ns) |-> C0(e, m)])
      ev == TLCEval([m \in 1..Len(e.ns) |-> FDot(cs[m], HV(hs[m], cs[m]))])
      eb == SumOver(LAMBDA m : FMul(e.omega[m] * 100, SumOver(LAMBDA i : FMul(FMul(cs[m][i], cs[m][i]), (i - 1) * Cosh2(e.r[m] * 100) + SinhSq(e.r[m] * 100)), 1, e.ns[m])), 1, Len(e.ns))
  IN {x \in {"every mode has a normalised state", "every mode's state is an eigenstate of its Hamiltonian", "every mode is in its ground state", "energy of the modes",
             "derivative of the energy with respect to the squeezing", "occupation of the modes", "density matrix of a mode", "expectation value of b + b^+"} :
       CASE x = "every mode has a normalised state" -> \E m \in 1..Len(e.ns) : ~Near(FDot(cs[m], cs[m]), S, 30)
         [] x = "every mode's state is an eigenstate of its Hamiltonian" -> \E m \in 1..Len(e.ns) : LET hv == HV(hs[m], cs[m]) IN \E i \in 1..e.ns[m] : ~Near(hv[i], FMul(ev[m], cs[m][i]), 150)
         [] x = "every mode is in its ground state" -> \E m \in 1..Len(e.ns) : \E t \in 1..Len(e.trials[m]) :
                 LET v == [i \in 1..e.ns[m] |-> e.trials[m][t][i] * S] IN
                 ev[m] * SumOver(LAMBDA i : e.trials[m][t][i] * e.trials[m][t][i], 1, e.ns[m]) > FDot(v, HV(hs[m], v)) + 400
         [] x = "energy of the modes" -> ~Near(e.eb, eb, 100)
         [] x = "derivative of the energy with respect to the squeezing" -> \E m \in 1..Len(e.ns) :
                 ~Near(e.gr[m], FMul(e.omega[m] * 100, SumOver(LAMBDA i : FMul(FMul(cs[m][i], cs[m][i]), ((2 * i) - 1) * Sinh2(e.r[m] * 100)), 1, e.ns[m])), 150)
         [] x = "occupation of the modes" -> \E m \in 1..Len(e.ns) : ~Near(e.occ[m], SumOver(LAMBDA i : (i - 1) * FMul(cs[m][i], cs[m][i]), 1, e.ns[m]), 30)
         [] x = "density matrix of a mode" -> \E m \in 1..Len(e.ns) : \E i, j \in 1..e.ns[m] : ~Near(e.pdm[m][i][j], FMul(cs[m][i], cs[m][j]), 10)
         [] OTHER -> \E m \in 1..Len(e.ns) : ~Near(e.bb[m], 2 * SumOver(LAMBDA i : FMul(FSqrt(i * S), FMul(cs[m][i], cs[m][i + 1])), 1, e.ns[m] - 1), 60)}
(* ------------------------------ AO matrices ------------------------------------- *)
Charge(e) == SumOver(LAMBDA a : e.q[a], 1, Len(e.q))
Origin(e, c) == (IF e.nuc THEN RDiv(SumOver(LAMBDA a : e.q[a] * e.xyz[a][c], 1, Len(e.q)), Charge(e)) ELSE 0) - e.shift[c]
Dip(e, c, p, q) == FMul(Origin(e, c), e.s[p][q]) - e.r[c][p][q]
Quad(e, c, d, p, q) == LET o(k) == Origin(e, k) IN
      -(e.rr[(3 * (c - 1)) + d][p][q] - FMul(o(c), e.r[d][p][q]) - FMul(o(d), e.r[c][p][q]) + FMul(FMul(o(c), o(d)), e.s[p][q]))
N3(v) == ISqrt(Norm2(v))
(* polarised dipole and quadrupole of a mode; vec is integer with integer length  *)
PDip(e, m, p, q) == IF N3(e.vec[m]) = 0 THEN 0 ELSE RDiv(SumOver(LAMBDA c : e.vec[m][c] * Dip(e, c, p, q), 1, 3), N3(e.vec[m]))
PQuad(e, m, p, q) == IF N3(e.vec[m]) = 0 THEN 0 ELSE
      RDiv(SumOver(LAMBDA c : SumOver(LAMBDA d : e.vec[m][c] * e.vec[m][d] * Quad(e, c, d, p, q), 1, 3), 1, 3), Norm2(e.vec[m]))
N(e) == 1..Len(e.s)
G(e, m) == e.gf[m] * 100             \* couplings are given in hundredths
AoFailing(e) ==
  IF e.oc # "ok" THEN {"the coupling matrices can be built"} ELSE
  {x \in {"dipole about the charge centre and the shifted origin", "quadrupole about the same origin", "coupling matrix g eps.d", "self-energy matrix g^2 eps.Q.eps", "bilinear coupling matrix g sqrt(omega/2) eps.d",
          "both ways to the coupling matrix agree"} :
    CASE x = "dipole about the charge centre and the shifted origin" -> \E c \in 1..3 : \E p, q \in N(e) : ~Near(e.dip[c][p][q], Dip(e, c, p, q), 15)
      [] x = "quadrupole about the same origin" -> \E c, d \in 1..3 : \E p, q \in N(e) : ~Near(e.quad[(3 * (c - 1)) + d][p][q], Quad(e, c, d, p, q), 40)
      [] x = "coupling matrix g eps.d" -> \E m \in 1..Len(e.vec) : \E p, q \in N(e) : ~Near(e.g[m][p][q], FMul(G(e, m), PDip(e, m, p, q)), 15)
      [] x = "self-energy matrix g^2 eps.Q.eps" -> \E m \in 1..Len(e.vec) : \E p, q \in N(e) : ~Near(e.ql[m][p][q], FMul(G(e, m), FMul(G(e, m), PQuad(e, m, p, q))), 40) \/ ~Near(e.ql2[m][p][q], e.ql[m][p][q], 1)
      [] x = "both ways to the coupling matrix agree" -> ~MNear([i \in 1..Len(e.vec) |-> e.g[i][1]], [i \in 1..Len(e.vec) |-> e.g2[i][1]], 1) \/ e.g # e.g2
      [] OTHER -> \E m \in 1..Len(e.vec) : \E p, q \in N(e) : ~Near(e.geb[m][p][q], FMul(FMul(G(e, m), FSqrt(e.omega[m] * 50)), PDip(e, m, p, q)), 25)}
BosonFailing(e) ==
  CASE e.op = "make" -> MakeFailing(e)
    [] e.op = "index" -> IF e.oc = "ok" /\ e.out = PackPos(e.i, e.j) THEN {} ELSE {"index into the packed triangle"}
    [] e.op = "pack" -> IF e.oc = "ok" /\ e.out = Pack(e.a) THEN {} ELSE {"packing a symmetric matrix"}
    [] e.op = "unpack" -> IF e.oc = "ok" /\ e.out = Unpack(e.a, e.n, e.fac) THEN {} ELSE {"unpacking a symmetric matrix"}
    [] e.op = "ham" -> IF e.oc = "ok" /\ Len(e.out) = Off(e.ns, Len(e.ns)) + e.ns[Len(e.ns)]
                          /\ LET hs == TLCEval([m \in 1..Len(e.ns) |-> ModeH(e.ns[m], e.omega[m] * 100, e.za[m] * 100, e.r[m] * 100)]) IN
                             \A i, j \in 1..Len(e.out) : LET m == ModeOf(e.ns, i)  k == ModeOf(e.ns, j) IN
                                Near(e.out[i][j], IF m = k THEN hs[m][i - Off(e.ns, m)][j - Off(e.ns, m)] ELSE 0, 60)
                       THEN {} ELSE {"Hamiltonian of the modes"}
    [] e.op = "disp" -> IF e.oc # "ok" THEN {"displacement of a mode can be computed"} ELSE
          UNION {LET f == e.f[k]  raw == DExp(f, e.pdm)  v == IF e.scaled THEN FMul(Gauss(f), raw) ELSE raw  d == FMul(Gauss(f), DDExp(f, e.pdm)) IN
                 (IF Near(e.val[k], v, 400) THEN {} ELSE {"displacement matrix elements"}) \cup
                 (IF Near(e.mat[k], v, 400) THEN {} ELSE {"both forms of the displacement agree"}) \cup
                 (IF Near(e.der[k], d, 600) THEN {} ELSE {"derivative of the displacement"}) \cup
                 (IF Near(e.dvt[k], FMul(f, d), 900) /\ Near(e.dsq[k], FMul(f, d), 900) THEN {} ELSE {"derivative with respect to coupling and squeezing"})
                 : k \in 1..Len(e.f)}
    [] e.op = "update" -> UpdFailing(e)
    [] e.op = "ao" -> AoFailing(e)
    [] OTHER -> {"unknown event"}
===============================================================================
