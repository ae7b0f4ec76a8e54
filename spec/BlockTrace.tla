------------------------------ MODULE BlockTrace ------------------------------
(* Judges what the real building blocks returned.                                  *)
EXTENDS BlockOps, Judge
Bad(ok, what) == IF ok THEN {} ELSE {what}
OscBad(e) == LET mw == e.m * e.w IN
  Bad(e.grad = OscGrad(e.rep, mw, e.x, e.s), "the gradient of an oscillator trial is that of its logarithm")
  \cup Bad(e.lap = OscLap(e.rep, mw, e.x, e.s), "the laplacian of an oscillator trial is that of the trial")
  \cup Bad(e.en = OscE(e.rep, e.m, e.w, e.x, e.s), "the local energy of an oscillator is its energy above the zero point")
  \cup Bad(e.lv = OscLog2(e.rep, mw, e.x, e.s), "the value of an oscillator trial is the shifted gaussian")
  \cup Bad(e.kept, "arguments are not changed, and shifts are copied")
CohBad(e) == Bad(e.amp = Coherent(e.al, e.nf), "a coherent trial has the amplitudes of the coherent state")
             \cup Bad(e.one = 1, "a coherent trial carries the factor that normalises the coherent state")
FockBad(e) == Bad(e.n = TotalN(e.nf, e.nm), "the default trial decays with the number of bosons")
ZfsBad(e) == Bad(e.got = (IF e.form = "tensor" THEN e.t3 ELSE ZFS3(e.D, e.E)), "the splitting tensor is traceless with the given D and E, or the tensor given")
SpinBad(e) == Bad(e.dim = e.twos + 1, "a spin s has 2s+1 states")
  \cup Bad(e.zfs = ZFS3(e.D, e.E), "the splitting tensor is traceless with the given D and E, or the tensor given")
  \cup Bad(e.de = <<e.D, e.E>>, "a spin keeps the parameters it is given")
  \cup Bad(e.g = GTensor(e.form, e.gin), "a g factor given as number, vector or tensor becomes the g tensor")
GfBad(e) ==
  Bad(e.scalar = (\A i \in 1..Len(e.ts) : Isotropic(e.ts[i])), "tensors count as a number exactly when all are isotropic")
  \cup Bad(e.got = (IF e.scalar THEN [i \in 1..Len(e.ts) |-> e.ts[i][1][1]] ELSE e.ts), "the g factors are kept")
CholBad(e) ==
  IF e.outcome # "ok" THEN Bad(Steps(e.s, 1) = 0 /\ e.outcome = "ValueError", "a positive matrix has a factor, the zero matrix is refused")
  ELSE LET r == Steps(e.s, 1) IN
    Bad(Steps(e.s, 1) # 0, "a positive matrix has a factor, the zero matrix is refused")
    \cup Bad(e.rank = r, "the number of vectors is the rank")
    \cup Bad(e.lower /\ Len(e.p) = e.rank /\ Cardinality(Range(e.p)) = Len(e.p) /\ Range(e.p) \subseteq 1..Len(e.s), "the factor is triangular in a choice of the basis functions")
    \cup Bad(e.llt = [i \in 1..Len(e.p) |-> [j \in 1..Len(e.p) |-> e.s[e.p[i]][e.p[j]]]], "the factor multiplies out to the matrix")
    \cup Bad(e.orth = [i \in 1..e.rank |-> [j \in 1..e.rank |-> IF i = j THEN 1 ELSE 0]], "the orthogonalised functions are orthonormal")
    \cup Bad(e.kept, "arguments are not changed, and shifts are copied")
ThreshBad(e) == Bad(e.rank = Cardinality({i \in 1..Len(e.exps) : e.exps[i] < e.t}), "directions below the threshold, and only those, are left out")
SignBad(e) == Bad(e.got = ExcSign(e.ref, e.tgt), "the sign of an excitation is that of the permutation")
PropBad(e) == Bad(e.got = [z \in 1..Len(e.phi) |-> MMul(e.a, e.phi[z])], "every walker is multiplied by the one-body operator")
ExpBad(e) == Bad(e.got = [z \in 1..Len(e.phi) |-> Taylor(e.as[z], e.phi[z], 0, e.K)], "every walker gets the exponential of its own operator")
UniBad(e) == Bad(e.got = UTrans(e.u, e.a), "a transformed matrix is U^dagger A U") \cup Bad(e.kept, "arguments are not changed, and shifts are copied")
ShapeBad(e) ==
  LET y2(x) == Sq(x - e.x0) IN
  IF e.sigma < 0 THEN Bad(e.got = [i \in 1..Len(e.x) |-> -1], "a negative width is marked")
  ELSE IF e.which = "lorentz" THEN Bad(e.got = [i \in 1..Len(e.x) |-> e.c * e.sigma], "a Lorentzian is c s / (x^2 + s^2)")
  ELSE Bad(e.got = [i \in 1..Len(e.x) |-> -y2(e.x[i])], "a Gaussian is c / (s sqrt(2 pi)) exp(-x^2 / 2 s^2)")
       \cup Bad(e.top = e.c, "a Gaussian is c / (s sqrt(2 pi)) exp(-x^2 / 2 s^2)")
BeBad(e) ==
  Bad(e.floats = BackendStates("float64", e.hist), "floating arrays have the precision selected last")
  \cup Bad(e.oks = [i \in 1..Len(e.hist) |-> e.hist[i] \in DOMAIN Accepted], "a backend that is not available is refused, and nothing changes")
  \cup Bad(e.rest, "integer and complex arrays, and all values, are kept")
(* a closed-shell guess is twice a projector on half as many orbitals as electrons *)
GuessBad(e) == Bad(e.el = e.n /\ e.idem = 2 * e.n /\ e.sym, "a guess from the core Hamiltonian is a determinant of all electrons")
BlockFailing(e) ==
  CASE e.kind = "osc" -> OscBad(e) [] e.kind = "coh" -> CohBad(e) [] e.kind = "fock" -> FockBad(e)
    [] e.kind = "zfs" -> ZfsBad(e) [] e.kind = "spin" -> SpinBad(e) [] e.kind = "gf" -> GfBad(e)
    [] e.kind = "chol" -> CholBad(e) [] e.kind = "thresh" -> ThreshBad(e) [] e.kind = "sign" -> SignBad(e)
    [] e.kind = "prop" -> PropBad(e) [] e.kind = "exp" -> ExpBad(e) [] e.kind = "uni" -> UniBad(e)
    [] e.kind = "shape" -> ShapeBad(e) [] e.kind = "be" -> BeBad(e) [] e.kind = "guess" -> GuessBad(e)
    [] e.kind = "failed" -> {"a building block completes on every valid input"}
=================================================================================
