------------------------------- MODULE LatTrace -------------------------------
EXTENDS LatOps, Judge
K9 == {"vvvv", "vvvo", "vovv", "vvoo", "oovv", "vovo", "vooo", "ooov", "oooo"}
K16 == {"vvvv", "vvvo", "vvov", "vovv", "ovvv", "vvoo", "vovo", "ovvo", "voov", "ovov", "oovv", "vooo", "ovoo", "oovo", "ooov", "oooo"}
Ch(k) == CASE k = "vvvv" -> <<"v","v","v","v">> [] k = "vvvo" -> <<"v","v","v","o">> [] k = "vvov" -> <<"v","v","o","v">> [] k = "vovv" -> <<"v","o","v","v">>
           [] k = "ovvv" -> <<"o","v","v","v">> [] k = "vvoo" -> <<"v","v","o","o">> [] k = "vovo" -> <<"v","o","v","o">> [] k = "ovvo" -> <<"o","v","v","o">>
           [] k = "voov" -> <<"v","o","o","v">> [] k = "ovov" -> <<"o","v","o","v">> [] k = "oovv" -> <<"o","o","v","v">> [] k = "vooo" -> <<"v","o","o","o">>
           [] k = "ovoo" -> <<"o","v","o","o">> [] k = "oovo" -> <<"o","o","v","o">> [] k = "ooov" -> <<"o","o","o","v">> [] OTHER -> <<"o","o","o","o">>
Pairs == {<<"o", "o">>, <<"o", "v">>, <<"v", "o">>, <<"v", "v">>}
Blk(y, t, k) == LET c == Ch(k)  f(a, b, d, e) == t[a][b][d][e] IN Tensor(f, Ix(y, c[1]), Ix(y, c[2]), Ix(y, c[3]), Ix(y, c[4]))
BlkS(y, t, k, s1, s2) == LET c == Ch(k)  f(a, b, d, e) == t[a][b][d][e] IN Tensor(f, IxS(y, c[1], s1), IxS(y, c[2], s2), IxS(y, c[3], s1), IxS(y, c[4], s2))
Clause(ok, name) == IF ok THEN {} ELSE {name}
SiteU(y, i, j, k, l) == IF i = j /\ j = k /\ k = l THEN y.u ELSE 0
SiteSO(y, p, q, r, s) == IF Spin(y.l, p) = Spin(y.l, r) /\ Spin(y.l, q) = Spin(y.l, s) THEN SiteU(y, Site(y.l, p), Site(y.l, q), Site(y.l, r), Site(y.l, s)) ELSE 0
Common(e, y, fa, fb, t) ==
  LET fs == SO(MoS(y, fa, 1), MoS(y, fb, 2), y.l)
      su(a, b, c, d) == SiteU(y, a, b, c, d)
      ss(a, b, c, d) == SiteSO(y, a, b, c, d)
  IN Clause(e.tS = Hop(y), "hopping connects neighbours with the boundary condition asked for")
     \cup Clause(e.t = SO(Hop(y), Hop(y), y.l), "hopping is the same for both spins")
     \cup Clause(e.uS = Tensor(su, Of(y, 1), Of(y, 1), Of(y, 1), Of(y, 1)), "repulsion is on site")
     \cup Clause(e.u = Tensor(ss, All(y), All(y), All(y), All(y)), "repulsion keeps spins")
     \cup Clause(e.fock = SO(FockS(y, 1), FockS(y, 2), y.l), "each spin feels the other spin's density")
     \cup Clause(\A k \in Pairs : e.gf[k[1] \o k[2]] = Sub(fs, Ix(y, k[1]), Ix(y, k[2])), "Fock blocks are the mean field's")
     \cup Clause(e.gh = SO(MoS(y, Hop(y), 1), MoS(y, Hop(y), 2), y.l) /\ e.uha = MoS(y, Hop(y), 1) /\ e.uhb = MoS(y, Hop(y), 2), "one-body matrix in orbitals")
     \cup Clause(\A k \in K9 : e.ga[k] = Blk(y, t, k), "antisymmetrised integral blocks")
BlkAll(y, t, s1, s2) == LET f(a, b, d, e) == t[a][b][d][e] IN Tensor(f, Of(y, s1), Of(y, s2), Of(y, s1), Of(y, s2))
Hubbard(e) == LET y == e.y  f(a, b, c, d) == RepA(y, a, b, c, d)  g(a, b, c, d) == Rep(y, a, b, c, d) IN
  UNION {UNION { Common(e, y, FockS(y, 1), FockS(y, 2), t)
       \cup Clause(e.gat = t, "antisymmetrised integrals")
       \cup Clause(e.git = r, "plain integrals")
       \cup Clause(e.uat[1] = BlkAll(y, t, 1, 1) /\ e.uat[2] = BlkAll(y, t, 2, 2) /\ e.uat[3] = BlkAll(y, r, 1, 2), "integrals by spin")
       \cup Clause(e.uit[1] = BlkAll(y, r, 1, 1) /\ e.uit[2] = BlkAll(y, r, 2, 2) /\ e.uit[3] = BlkAll(y, r, 1, 2), "plain integrals by spin")
       \cup Clause(\A k \in K9 : e.ua[1][k] = BlkS(y, t, k, 1, 1) /\ e.ua[2][k] = BlkS(y, t, k, 2, 2), "same-spin integral blocks")
       \cup Clause(\A k \in K16 : e.ua[3][k] = BlkS(y, r, k, 1, 2), "opposite-spin integral blocks")
       \cup Clause(\A k \in Pairs : \A s \in {1, 2} : e.uf[s][k[1] \o k[2]] = Sub(SO(MoS(y, FockS(y, 1), 1), MoS(y, FockS(y, 2), 2), y.l), IxS(y, k[1], s), IxS(y, k[2], s)), "Fock blocks by spin")
       \cup Clause(e.e = HubE(y), "energy is the expectation value")
       : t \in {Tensor(f, All(y), All(y), All(y), All(y))}} : r \in {Tensor(g, All(y), All(y), All(y), All(y))}}
Holstein(e) == LET y == e.y  f(a, b, c, d) == RepA(y, a, b, c, d) IN
  UNION { Common(e, y, FockHH(y, 1), FockHH(y, 2), t)
       \cup Clause(e.e = HHE(y), "energy is the expectation value with displaced phonons")
       \cup Clause(\A m \in 1..y.l : \A k \in Pairs : e.gi[k[1] \o k[2]][m] = Sub(SO(MoS(y, y.g[m], 1), MoS(y, y.g[m], 2), y.l), Ix(y, k[1]), Ix(y, k[2])), "coupling blocks")
       \cup Clause(\A m \in 1..y.l : e.git[m] = SO(MoS(y, y.g[m], 1), MoS(y, y.g[m], 2), y.l), "couplings in orbitals")
       \cup Clause(\A m \in 1..y.l : e.gm[m] = SO(y.g[m], y.g[m], y.l), "couplings by site and bond")
       \cup Clause(\A m \in 1..y.l : e.mfg[m] = (IF y.shift THEN 0 ELSE Disp(y, m)) /\ e.w[m] = y.w, "mean-field couplings and frequencies")
       : t \in {Tensor(f, All(y), All(y), All(y), All(y))}}
LatFailing(e) ==
  CASE e.op = "hubbard" -> IF e.oc # "ok" THEN {"the model can be built"} ELSE Hubbard(e)
    [] e.op = "holstein" -> IF e.oc # "ok" THEN {"the model can be built"} ELSE Holstein(e)
    [] e.op = "refuse" -> Clause(e.oc = "raise", "unknown boundary conditions are refused")
    [] e.op = "same" -> IF e.oc = "ok" /\ \A k \in 1..Len(e.v) : Abs(e.v[k] - e.v[1]) <= e.tol THEN {} ELSE {e.what}
    [] OTHER -> {"unknown event"}
===============================================================================
