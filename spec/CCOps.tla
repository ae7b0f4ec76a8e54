-------------------------------- MODULE CCOps ---------------------------------
(* Coupled cluster with photons, in Fock space.  Electrons: the no lowest of     *)
(* no + nv spin orbitals are occupied in the reference; a determinant is the set *)
(* of its occupied orbitals.  Photons: the vector |n) = b^+^n/n! |0> per mode,   *)
(* so that every coefficient stays an integer: b |n) = |n-1), b^+ |n) =          *)
(* (n+1) |n+1), b^+^r/r! |n) = binomial(n+r, r) |n+r).                           *)
(*                                                                               *)
(* Hamiltonian (normal ordered with respect to the reference):                   *)
(*    f_pq {p^+ q} + 1/4 i_pqrs {p^+ q^+ s r} + w_m b_m^+ b_m                    *)
(*    + g_m,pq {p^+ q} (b_m + b_m^+)                                             *)
(* Cluster operator: t1, t2, s_k (k photons), u1_k, u2_k (singles, doubles with  *)
(* k photons).  The residuals are <mu| e^-T H e^T |0>.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
One(S) == CHOOSE x \in S : TRUE
RECURSIVE SumSet(_, _)
SumSet(Op(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Op(x) + SumSet(Op, S \ {x})
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN 1 ELSE (Binom(n - 1, k - 1) * n) \div k
RECURSIVE ProdTo(_, _)
ProdTo(Op(_), n) == IF n = 0 THEN 1 ELSE Op(n) * ProdTo(Op, n - 1)
Max2(a, b) == IF a > b THEN a ELSE b

Orb(y) == 1..(y.no + y.nv)
Ref(y) == 1..y.no
Dets(y) == TLCEval({d \in SUBSET Orb(y) : Cardinality(d) = y.no})
Top(y) == Max2(y.nf1, y.nf2) + 1                \* photons beyond the projections: the Hamiltonian lowers by one
Occs(y) == TLCEval({o \in [1..y.nm -> 0..Top(y)] : SumSet(LAMBDA m : o[m], 1..y.nm) <= Top(y)})
Unit(y, m) == [k \in 1..y.nm |-> IF k = m THEN 1 ELSE 0]
NoPh(y) == [k \in 1..y.nm |-> 0]
Plus(o, r) == [k \in DOMAIN o |-> o[k] + r[k]]
Minus(o, r) == [k \in DOMAIN o |-> o[k] - r[k]]
Geq(o, r) == \A k \in DOMAIN o : o[k] >= r[k]
Ways(o, r) == ProdTo(LAMBDA k : Binom(o[k], r[k]), Len(o))
(* sign of p^+ q on d (q occupied, p empty or equal)                             *)
Between(d, p, q) == Cardinality({x \in d : (x > p /\ x < q) \/ (x > q /\ x < p)})
Sgn(d, p, q) == IF Between(d, p, q) % 2 = 0 THEN 1 ELSE -1
Move(d, p, q) == (d \ {q}) \cup {p}
(* p^+ q^+ s r = (p^+ r)(q^+ s) for distinct orbitals                            *)
Sgn2(d, p, q, r, s) == Sgn(d, q, s) * Sgn(Move(d, q, s), p, r)
Low(S) == CHOOSE x \in S : \A z \in S : x <= z

-------------------------------------------------------------------------------
Core(y) == TLCEval([p \in Orb(y) |-> [q \in Orb(y) |-> y.f[p][q] - SumSet(LAMBDA k : y.i[p][k][q][k], Ref(y))]])
Diag(y, h, d) == SumSet(LAMBDA p : h[p][p], d) + (SumSet(LAMBDA p : SumSet(LAMBDA q : y.i[p][q][p][q], d), d) \div 2)
(* <x|H|d> of the electronic part                                                *)
ElecMat(y) == One({One({TLCEval([x \in ds |-> [d \in ds |->
     LET new == x \ d  old == d \ x IN
     CASE Cardinality(new) = 0 -> Diag(y, h, d) - Diag(y, h, Ref(y))
       [] Cardinality(new) = 1 -> LET p == Low(new)  q == Low(old) IN Sgn(d, p, q) * (h[p][q] + SumSet(LAMBDA k : y.i[p][k][q][k], d \ {q}))
       [] Cardinality(new) = 2 -> LET p == Low(new)  q == Low(new \ {p})  r == Low(old)  s == Low(old \ {r}) IN Sgn2(d, p, q, r, s) * y.i[p][q][r][s]
       [] OTHER -> 0]]) : h \in {Core(y)}}) : ds \in {Dets(y)}})
CoupMat(y, m) == One({TLCEval([x \in ds |-> [d \in ds |->
     LET new == x \ d  old == d \ x IN
     CASE Cardinality(new) = 0 -> SumSet(LAMBDA p : y.g[m][p][p], d) - SumSet(LAMBDA p : y.g[m][p][p], Ref(y))
       [] Cardinality(new) = 1 -> LET p == Low(new)  q == Low(old) IN Sgn(d, p, q) * y.g[m][p][q]
       [] OTHER -> 0]]) : ds \in {Dets(y)}})
ApplyH(y, v) == One({One({One({TLCEval([d \in Dets(y) |-> [o \in os |->
       SumSet(LAMBDA x : he[d][x] * v[x][o], Dets(y))
     + SumSet(LAMBDA m : (y.w[m] * o[m] * v[d][o])
              + SumSet(LAMBDA x : IF gm[m][d][x] = 0 THEN 0 ELSE gm[m][d][x] * ((IF Plus(o, Unit(y, m)) \in os THEN v[x][Plus(o, Unit(y, m))] ELSE 0)
                                              + (IF o[m] > 0 THEN o[m] * v[x][Minus(o, Unit(y, m))] ELSE 0)), Dets(y)), 1..y.nm)]])
     : gm \in {TLCEval([m \in 1..y.nm |-> CoupMat(y, m)])}}) : he \in {ElecMat(y)}}) : os \in {Occs(y)}})

-------------------------------------------------------------------------------
(* amplitudes: x excites <<a, i>> (virtual a, occupied i), r photons, value c    *)
Amp(x, r, c) == [x |-> x, r |-> r, c |-> c]
Vi(y) == 1..y.nv
Oc(y) == 1..y.no
Photons(y, k) == {o \in Occs(y) : SumSet(LAMBDA m : o[m], 1..y.nm) = k}
(* the indices of a photon occupation: <<m>> or <<m, m'>>, sorted                *)
Index(o) == IF SumSet(LAMBDA m : o[m], DOMAIN o) = 1 THEN <<CHOOSE m \in DOMAIN o : o[m] = 1>>
            ELSE IF \E m \in DOMAIN o : o[m] = 2 THEN LET m == CHOOSE m \in DOMAIN o : o[m] = 2 IN <<m, m>>
            ELSE LET m == CHOOSE m \in DOMAIN o : o[m] = 1 IN <<m, CHOOSE k \in DOMAIN o : k # m /\ o[k] = 1>>
Pick(t, o) == LET ix == Index(o) IN IF Len(ix) = 1 THEN t[ix[1]] ELSE t[ix[1]][ix[2]]
Doubles(y) == {z \in Vi(y) \X Vi(y) \X Oc(y) \X Oc(y) : z[1] < z[2] /\ z[3] < z[4]}
Exc1(a, i) == << <<a, i>> >>
Exc2(z) == << <<z[1], z[3]>>, <<z[2], z[4]>> >>
Amps(y) == TLCEval({m \in
     {Amp(Exc1(a, i), NoPh(y), y.t1[a][i]) : a \in Vi(y), i \in Oc(y)}
     \cup {Amp(Exc2(z), NoPh(y), y.t2[z[1]][z[2]][z[3]][z[4]]) : z \in Doubles(y)}
     \cup UNION {{Amp(<< >>, o, Pick(y.s[k], o)) : o \in Photons(y, k)} : k \in 1..y.nf1}
     \cup UNION {{Amp(Exc1(a, i), o, Pick(y.u1[k], o)[a][i]) : a \in Vi(y), i \in Oc(y), o \in Photons(y, k)} : k \in 1..y.nf2}
     \cup UNION {{Amp(Exc2(z), o, Pick(y.u2[k], o)[z[1]][z[2]][z[3]][z[4]]) : z \in Doubles(y), o \in Photons(y, k)} : k \in 1..y.nf2}
     : m.c # 0})
RECURSIVE SgnX(_, _, _)
SgnX(y, x, d) == IF x = << >> THEN 1 ELSE      \* the last excitation acts first
    LET l == x[Len(x)] IN Sgn(d, y.no + l[1], l[2]) * SgnX(y, SubSeq(x, 1, Len(x) - 1), Move(d, y.no + l[1], l[2]))
Holes(x) == {x[k][2] : k \in DOMAIN x}
Parts(y, x) == {y.no + x[k][1] : k \in DOMAIN x}
(* e^(c tau) v; tau^2 = 0 when it moves electrons, otherwise b^+ alone           *)
ExpOne(y, m, v) ==
  IF m.x # << >> THEN
    TLCEval([d \in DOMAIN v |-> IF Parts(y, m.x) \subseteq d /\ Holes(m.x) \cap d = {}
       THEN LET b == (d \ Parts(y, m.x)) \cup Holes(m.x)  c == m.c * SgnX(y, m.x, b) IN
            [o \in DOMAIN v[d] |-> IF Geq(o, m.r) THEN v[d][o] + (c * Ways(o, m.r) * v[b][Minus(o, m.r)]) ELSE v[d][o]]
       ELSE v[d]])
  ELSE LET k1 == SumSet(LAMBDA k : m.r[k], DOMAIN m.r) IN
    TLCEval([d \in DOMAIN v |-> [o \in DOMAIN v[d] |-> SumSet(LAMBDA k :
         LET r == [j \in DOMAIN m.r |-> k * m.r[j]] IN IF Geq(o, r) THEN (m.c ^ k) * Ways(o, r) * v[d][Minus(o, r)] ELSE 0, 0..(IF k1 = 1 THEN Top(y) ELSE 1))]])
RECURSIVE ExpAll(_, _, _)
ExpAll(y, ms, v) == IF ms = {} THEN v ELSE LET m == CHOOSE m \in ms : TRUE IN One({ExpAll(y, ms \ {m}, w) : w \in {ExpOne(y, m, v)}})
Neg(ms) == {[m EXCEPT !.c = -m.c] : m \in ms}
Vac(y) == One({TLCEval([d \in Dets(y) |-> [o \in os |-> IF d = Ref(y) /\ o = NoPh(y) THEN 1 ELSE 0]]) : os \in {Occs(y)}})
(* two photons at once twice would exceed the photons kept                       *)
Bounded(y) == Top(y) <= 3
Residual(y) == One({ExpAll(y, Neg(ms), ApplyH(y, ExpAll(y, ms, Vac(y)))) : ms \in {Amps(y)}})
Coef(y, r, x, o) == LET d == (Ref(y) \ Holes(x)) \cup Parts(y, x) IN SgnX(y, x, Ref(y)) * r[d][o]
R2(y, r, z, o) == IF z[1] = z[2] \/ z[3] = z[4] THEN 0 ELSE
    (IF z[1] < z[2] THEN 1 ELSE -1) * (IF z[3] < z[4] THEN 1 ELSE -1) * Coef(y, r, Exc2(<<IF z[1] < z[2] THEN z[1] ELSE z[2], IF z[1] < z[2] THEN z[2] ELSE z[1],
        IF z[3] < z[4] THEN z[3] ELSE z[4], IF z[3] < z[4] THEN z[4] ELSE z[3]>>), o)
Singles(y, r, o) == [a \in Vi(y) |-> [i \in Oc(y) |-> Coef(y, r, Exc1(a, i), o)]]
Pairs(y, r, o) == [a \in Vi(y) |-> [b \in Vi(y) |-> [i \in Oc(y) |-> [j \in Oc(y) |-> R2(y, r, <<a, b, i, j>>, o)]]]]
Ph1(y, m) == Unit(y, m)
Ph2(y, m, k) == Plus(Unit(y, m), Unit(y, k))
(* energy of the cluster state, from the amplitudes                              *)
Energy(y) == LET V(i, a) == y.f[i][y.no + a] IN
     SumSet(LAMBDA a : SumSet(LAMBDA i : V(i, a) * y.t1[a][i], Oc(y)), Vi(y))
   + SumSet(LAMBDA z : y.i[z[3]][z[4]][y.no + z[1]][y.no + z[2]] * (y.t2[z[1]][z[2]][z[3]][z[4]] + (y.t1[z[1]][z[3]] * y.t1[z[2]][z[4]]) - (y.t1[z[2]][z[3]] * y.t1[z[1]][z[4]])), Doubles(y))
   + SumSet(LAMBDA m : SumSet(LAMBDA a : SumSet(LAMBDA i : y.g[m][i][y.no + a] * ((IF y.nf2 > 0 THEN y.u1[1][m][a][i] ELSE 0) + (IF y.nf1 > 0 THEN y.t1[a][i] * y.s[1][m] ELSE 0)), Oc(y)), Vi(y)), 1..y.nm)
===============================================================================
