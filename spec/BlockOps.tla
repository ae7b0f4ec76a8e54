------------------------------ MODULE BlockOps ------------------------------
(* Shared building blocks: bosonic trial states in first and second            *)
(* quantisation, zero-field splitting and g tensors, pivoted Cholesky           *)
(* factors, unitary transformations, propagation of orbitals, excitation        *)
(* signs, line shapes, and the array backend (a state machine).                 *)
EXTENDS CArith, CholOps
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE CPow(_, _)
CPow(z, n) == IF n = 0 THEN C1 ELSE CMul(z, CPow(z, n - 1))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Sq(a) == a * a
(* ---- oscillators: position (Q) and momentum (P) trial states.  Values are    *)
(* scaled to integers: in P by m w (gradient, log) and (m w)^2 (laplacian), the *)
(* energy by 2 (Q) and 2 m (P).                                                 *)
OscLog2(rep, mw, x, s) == LET f(i) == Sq(x[i] - s[i]) IN IF rep = "Q" THEN -(mw * SumTo(f, Len(x))) ELSE -SumTo(f, Len(x))
OscGrad(rep, mw, x, s) == TLCEval([i \in 1..Len(x) |-> IF rep = "Q" THEN -(mw * (x[i] - s[i])) ELSE -(x[i] - s[i])])
OscLap(rep, mw, x, s)  == TLCEval([i \in 1..Len(x) |-> IF rep = "Q" THEN Sq(mw * (x[i] - s[i])) - mw ELSE Sq(x[i] - s[i]) - mw])
OscE(rep, m, w, x, s)  == LET f(i) == ((2 * x[i]) * s[i]) - Sq(s[i]) IN IF rep = "Q" THEN (m * (w * w)) * SumTo(f, Len(x)) ELSE SumTo(f, Len(x))
(* the same energy from its definition: kinetic (or potential) part from the    *)
(* laplacian, the other from the coordinate, minus the zero-point energy        *)
OscEdef(rep, m, w, x, s) ==
  LET l == OscLap(rep, m * w, x, s)
      g(i) == l[i]
      h(i) == Sq(x[i])
      n == Len(x)
  IN IF rep = "Q" THEN ((m * (w * w)) * SumTo(h, n)) - (SumTo(g, n) \div m) - (w * n)
     ELSE (SumTo(h, n) - SumTo(g, n)) - ((m * w) * n)
Exactly(rep, m, w, x, s) == LET l == OscLap(rep, m * w, x, s) g(i) == l[i] IN rep = "P" \/ (SumTo(g, Len(x)) % m) = 0
(* ---- coherent states over products of oscillators: amplitude ratio           *)
(* psi[n] sqrt(prod n_i!) / psi[0] = prod alpha_i^n_i, C order of the products  *)
RECURSIVE Digits(_, _, _)
Digits(k, nf, nm) == IF nm = 0 THEN << >> ELSE Append(Digits(k \div nf, nf, nm - 1), k % nf)
RECURSIVE CProd(_, _)
CProd(f(_), n) == IF n = 0 THEN C1 ELSE CMul(CProd(f, n - 1), f(n))
CohAmp(al, dig) == CProd(LAMBDA i : CPow(al[i], dig[i]), Len(dig))
Coherent(al, nf) == TLCEval([k \in 1..Pow(nf, Len(al)) |-> CohAmp(al, Digits(k - 1, nf, Len(al)))])
TotalN(nf, nm) == TLCEval([k \in 1..Pow(nf, nm) |-> SumSeq(Digits(k - 1, nf, nm))])
(* ---- tensors *)
ZFS3(D, E) == << <<(3 * E) - D, 0, 0>>, <<0, (-D) - (3 * E), 0>>, <<0, 0, 2 * D>> >>
Diag3(v) == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN v[i] ELSE 0]]
Isotropic(t) == t = Diag3(<<t[1][1], t[1][1], t[1][1]>>)
(* what a spin makes of a g factor: number, vector, tensor *)
GTensor(form, g) == CASE form = "number" -> Diag3(<<g, g, g>>) [] form = "vector" -> Diag3(g) [] OTHER -> g
(* ---- excitation sign: rename the orbitals of ref that are not in tgt (in     *)
(* order) to those of tgt not in ref, and count inversions                      *)
Missing(a, b) == SelectSeq(a, LAMBDA o : o \notin Range(b))
Pos(s, o) == CHOOSE i \in 1..Len(s) : s[i] = o
Renamed(ref, tgt) == LET f == Missing(tgt, ref) t == Missing(ref, tgt) IN
   [i \in 1..Len(ref) |-> Pos(tgt, IF ref[i] \in Range(tgt) THEN ref[i] ELSE f[Pos(t, ref[i])])]
Inversions(p) == Cardinality({pq \in (1..Len(p)) \X (1..Len(p)) : pq[1] < pq[2] /\ p[pq[1]] > p[pq[2]]})
ExcSign(ref, tgt) == IF Inversions(Renamed(ref, tgt)) % 2 = 0 THEN 1 ELSE -1
Moves(ref, tgt) == LET f == Missing(tgt, ref) t == Missing(ref, tgt)
                       a(k) == Pos(tgt, f[k]) - k
                       b(k) == Pos(ref, t[k]) - k
                   IN SumTo(a, Len(f)) + SumTo(b, Len(t))
(* ---- orbitals: A phi, and K! times the Taylor series of exp(A) phi to order K *)
MAdd(a, b) == TLCEval([i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> CAdd(a[i][j], b[i][j])]])
MScale(k, a) == TLCEval([i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> CScale(k, a[i][j])]])
RECURSIVE Taylor(_, _, _, _)
Taylor(a, v, k, K) == IF k > K THEN MScale(0, v) ELSE MAdd(MScale(Fact(K) \div Fact(k), v), Taylor(a, MMul(a, v), k + 1, K))
UTrans(u, a) == AdjMul(u, MMul(a, u))
Adj(a) == TLCEval([i \in 1..Cols(a) |-> [j \in 1..Rows(a) |-> CConj(a[j][i])]])
Trace(a) == CSumOver(LAMBDA i : a[i][i], 1, Rows(a))
(* ---- the array backend: precision of floating arrays *)
Accepted == [n \in {"numpy", "numpy.float16", "numpy.float32", "numpy.float64"} |->
               CASE n = "numpy.float16" -> "float16" [] n = "numpy.float32" -> "float32" [] OTHER -> "float64"]
Select(st, name) == IF name \in DOMAIN Accepted THEN Accepted[name] ELSE st
RECURSIVE BackendStates(_, _)
BackendStates(st, h) == IF h = << >> THEN << >> ELSE <<Select(st, Head(h))>> \o BackendStates(Select(st, Head(h)), Tail(h))
===============================================================================
