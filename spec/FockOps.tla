------------------------------- MODULE FockOps -------------------------------
(* The electron-boson Fock space of QED-FCI.  A configuration is a record of     *)
(* the occupied alpha orbitals, the occupied beta orbitals (subsets of 0..norb-1)*)
(* and the number of quanta of every mode.  Operators are transitions between    *)
(* configurations with an amplitude: a sign for electrons, a square root for     *)
(* bosons.                                                                       *)
EXTENDS Fixed, FiniteSets
(* ------------------------------ electrons ------------------------------------ *)
(* E_pq = p^dagger q on an occupation set: defined iff q is occupied and p is     *)
(* empty (or p = q); the sign counts the occupied orbitals strictly in between    *)
Can(occ, p, q) == q \in occ /\ (p = q \/ p \notin occ)
Moved(occ, p, q) == (occ \ {q}) \cup {p}
Between(occ, p, q) == {k \in occ : (p < k /\ k < q) \/ (q < k /\ k < p)}
Sign(occ, p, q) == IF Cardinality(Between(occ, p, q)) % 2 = 0 THEN 1 ELSE -1
(* the source configuration(s) from which E_pq leads to occ: E_qp is its inverse  *)
(* ------------------------------ layout ---------------------------------------- *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Mask(occ) == SumOver(LAMBDA k : IF k \in occ THEN Pow2(k) ELSE 0, 0, 9)
(* strings with n of norb orbitals, in the order of their bit patterns            *)
Strs(norb, n) == {occ \in SUBSET (0..(norb - 1)) : Cardinality(occ) = n}
Rank(ss, occ) == Cardinality({o \in ss : Mask(o) < Mask(occ)}) + 1
SeqOf(ss) == TLCEval([i \in 1..Cardinality(ss) |-> CHOOSE o \in ss : Rank(ss, o) = i])
(* boson configurations <<n_1, ..., n_m>> with 0 <= n_k <= top[k], last fastest    *)
RECURSIVE NBos(_, _)
NBos(top, k) == IF k > Len(top) THEN 1 ELSE (top[k] + 1) * NBos(top, k + 1)
(* position (from 0) of a boson configuration                                     *)
RECURSIVE BosPos(_, _, _)
BosPos(top, n, k) == IF k > Len(top) THEN 0 ELSE n[k] * NBos(top, k + 1) + BosPos(top, n, k + 1)
RECURSIVE BosAt(_, _, _)
BosAt(top, r, k) == IF k > Len(top) THEN <<>> ELSE <<r \div NBos(top, k + 1)>> \o BosAt(top, r % NBos(top, k + 1), k + 1)
Space(norb, na, nb, top) ==
   LET sa == Strs(norb, na)  sb == Strs(norb, nb)
   IN  [norb |-> norb, top |-> top, qa |-> SeqOf(sa), qb |-> SeqOf(sb),
        ra |-> TLCEval([o \in sa |-> Rank(sa, o)]), rb |-> TLCEval([o \in sb |-> Rank(sb, o)]),
        nph |-> NBos(top, 1), bos |-> TLCEval([r \in 0..(NBos(top, 1) - 1) |-> BosAt(top, r, 1)])]
Dim(sp) == Len(sp.qa) * Len(sp.qb) * sp.nph
Pos(sp, c) == (((sp.ra[c.a] - 1) * Len(sp.qb)) + (sp.rb[c.b] - 1)) * sp.nph + BosPos(sp.top, c.n, 1) + 1
At(sp, i) == [a |-> sp.qa[(((i - 1) \div sp.nph) \div Len(sp.qb)) + 1],
              b |-> sp.qb[(((i - 1) \div sp.nph) % Len(sp.qb)) + 1], n |-> sp.bos[(i - 1) % sp.nph]]
(* ------------------------------ vectors --------------------------------------- *)
(* a vector is a sequence of fixed-point amplitudes over At(sp, 1..Dim).           *)
VAdd(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] + y[i]])
VZero(sp) == TLCEval([i \in 1..Dim(sp) |-> 0])
RECURSIVE VSum(_, _, _, _)
VSum(F(_), lo, hi, z) == IF lo > hi THEN z ELSE VAdd(F(lo), VSum(F, lo + 1, hi, z))
(* <c'| E_pq |v> for alpha (s = 1) and beta (s = 2)                                *)
EAt(sp, v, s, p, q, c) ==
   LET occ == IF s = 1 THEN c.a ELSE c.b
   IN  IF ~Can(occ, q, p) THEN 0
       ELSE Sign(occ, q, p) * v[Pos(sp, IF s = 1 THEN [c EXCEPT !.a = Moved(occ, q, p)] ELSE [c EXCEPT !.b = Moved(occ, q, p)])]
E(sp, v, s, p, q) == TLCEval([i \in 1..Dim(sp) |-> EAt(sp, v, s, p, q, At(sp, i))])
(* sum_pq h_pq (E^a_pq + E^b_pq) with integer h                                    *)
OneBody(sp, h, v) == TLCEval([i \in 1..Dim(sp) |->
   LET c == At(sp, i) IN SumOver(LAMBDA p : SumOver(LAMBDA q :
       IF h[p + 1][q + 1] = 0 THEN 0 ELSE h[p + 1][q + 1] * (EAt(sp, v, 1, p, q, c) + EAt(sp, v, 2, p, q, c)), 0, sp.norb - 1), 0, sp.norb - 1)])
(* sum g[pqrs] E^s_pq E^t_rs                                                       *)
TwoBody(sp, g, s, t, v) ==
   VSum(LAMBDA rs : Only({VSum(LAMBDA pq :
            LET p == pq \div sp.norb  q == pq % sp.norb  r == rs \div sp.norb  x == rs % sp.norb
                k == g[p + 1][q + 1][r + 1][x + 1]
            IN IF k = 0 THEN VZero(sp) ELSE TLCEval([i \in 1..Dim(sp) |-> k * EAt(sp, u, s, p, q, At(sp, i))]), 0, sp.norb * sp.norb - 1, VZero(sp))
        : u \in {E(sp, v, t, rs \div sp.norb, rs % sp.norb)}}), 0, sp.norb * sp.norb - 1, VZero(sp))
TwoBodySF(sp, g, v) == VAdd(VAdd(TwoBody(sp, g, 1, 1, v), TwoBody(sp, g, 1, 2, v)), VAdd(TwoBody(sp, g, 2, 1, v), TwoBody(sp, g, 2, 2, v)))
Transp(g) == TLCEval([p \in 1..Len(g) |-> [q \in 1..Len(g) |-> [r \in 1..Len(g) |-> [s \in 1..Len(g) |-> g[r][s][p][q]]]]])
TwoBodySpin(sp, gaa, gab, gbb, v) == VAdd(VAdd(TwoBody(sp, gaa, 1, 1, v), TwoBody(sp, gab, 1, 2, v)), VAdd(TwoBody(sp, Transp(gab), 2, 1, v), TwoBody(sp, gbb, 2, 2, v)))
(* u sum_i n_ia n_ib                                                               *)
Hubbard(sp, u, v) == TLCEval([i \in 1..Dim(sp) |-> LET c == At(sp, i) IN u * Cardinality(c.a \cap c.b) * v[i]])
(* ------------------------------ bosons ----------------------------------------- *)
Cre(sp, m, v) == TLCEval([i \in 1..Dim(sp) |-> LET c == At(sp, i) IN
     IF c.n[m] = 0 THEN 0 ELSE FMul(FSqrt(c.n[m] * S), v[Pos(sp, [c EXCEPT !.n[m] = @ - 1])])])
Des(sp, m, v) == TLCEval([i \in 1..Dim(sp) |-> LET c == At(sp, i) IN
     IF c.n[m] = sp.top[m] THEN 0 ELSE FMul(FSqrt((c.n[m] + 1) * S), v[Pos(sp, [c EXCEPT !.n[m] = @ + 1])])])
VScale(k, v) == TLCEval([i \in 1..Len(v) |-> k * v[i]])
(* sum_kl w_kl b_k^+ b_l                                                           *)
BB(sp, w, v) == VSum(LAMBDA l : Only({VSum(LAMBDA k : IF w[k][l] = 0 THEN VZero(sp)
                        ELSE IF k = l THEN TLCEval([i \in 1..Dim(sp) |-> w[k][l] * At(sp, i).n[k] * v[i]])
                        ELSE VScale(w[k][l], Cre(sp, k, d)), 1, Len(sp.top), VZero(sp)) : d \in {Des(sp, l, v)}}), 1, Len(sp.top), VZero(sp))
(* sum_k s_k (b_k + b_k^+)                                                         *)
Shift(sp, s, v) == VSum(LAMBDA k : VScale(s[k], VAdd(Cre(sp, k, v), Des(sp, k, v))), 1, Len(sp.top), VZero(sp))
(* sum_k G_k,pq E_pq (b_k + b_k^+)                                                 *)
EB(sp, g, v) == VSum(LAMBDA k : Only({OneBody(sp, g[k], x) : x \in {VAdd(Cre(sp, k, v), Des(sp, k, v))}}), 1, Len(sp.top), VZero(sp))
(* 2 nmode sum_k g_k (n_k - N/nmode)(b_k + b_k^+) / 2: the site-diagonal coupling,  *)
(* times the number of modes                                                       *)
EBSite(sp, g, N, v) == VSum(LAMBDA k : Only({TLCEval([i \in 1..Dim(sp) |-> LET c == At(sp, i) IN
                g[k] * (Len(sp.top) * ((IF (k - 1) \in c.a THEN 1 ELSE 0) + (IF (k - 1) \in c.b THEN 1 ELSE 0)) - N) * x[i]])
                : x \in {VAdd(Cre(sp, k, v), Des(sp, k, v))}}), 1, Len(sp.top), VZero(sp))
(* twice the electronic Hamiltonian: 2 sum h E + sum g (E_pq E_rs - delta_qr E_ps)  *)
TwoHel(sp, h, g, v) == LET t == TLCEval([p \in 1..sp.norb |-> [s \in 1..sp.norb |-> 2 * h[p][s] - SumOver(LAMBDA q : g[p][q][q][s], 1, sp.norb)]])
                       IN VAdd(OneBody(sp, t, v), TwoBodySF(sp, g, v))
(* ------------------------------ expectation ------------------------------------- *)
Dot(x, y) == SumOver(LAMBDA i : x[i] * y[i], 1, Len(x))
VNear(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Abs(x[i] - y[i]) <= tol
===============================================================================
