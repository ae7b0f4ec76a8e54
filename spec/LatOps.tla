------------------------------- MODULE LatOps -------------------------------
(* Hubbard and Hubbard-Holstein chains.  Sites 1..l; spin orbitals: all up, then *)
(* all down.  y: [l, u, ring, two (weight of the closing bond of a two-site      *)
(* ring), ca, cb, na, nb, g (sequence of l x l coupling matrices), w, shift].    *)
(* The mean-field quantities of models with phonons are scaled by w.             *)
EXTENDS Arith, TLC
One(S) == CHOOSE x \in S : TRUE
Sum(f(_), n) == SumOver(f, 1, n)
Bond(y, i, j) == IF i = j THEN 0
                 ELSE IF y.l = 2 THEN (IF y.ring THEN y.two ELSE 1)
                 ELSE IF Abs(i - j) = 1 \/ (y.ring /\ Abs(i - j) = y.l - 1) THEN 1 ELSE 0
Hop(y) == TLCEval([i \in 1..y.l |-> [j \in 1..y.l |-> -Bond(y, i, j)]])
Spin(l, p) == IF p <= l THEN 1 ELSE 2
Site(l, p) == IF p <= l THEN p ELSE p - l
Orb(y, s) == IF s = 1 THEN y.ca ELSE y.cb
NOcc(y, s) == IF s = 1 THEN y.na ELSE y.nb
Rho(y, s) == TLCEval([i \in 1..y.l |-> [j \in 1..y.l |-> Sum(LAMBDA k : Orb(y, s)[i][k] * Orb(y, s)[j][k], NOcc(y, s))]])
SO(a, b, l) == TLCEval([p \in 1..(2 * l) |-> [q \in 1..(2 * l) |-> IF Spin(l, p) # Spin(l, q) THEN 0 ELSE IF Spin(l, p) = 1 THEN a[Site(l, p)][Site(l, q)] ELSE b[Site(l, p)][Site(l, q)]]])
(* mean fields *)
FockS(y, s) == One({TLCEval([i \in 1..y.l |-> [j \in 1..y.l |-> Hop(y)[i][j] + (IF i = j THEN y.u * r[i][i] ELSE 0)]]) : r \in {Rho(y, 3 - s)}})
HubE(y) == One({Sum(LAMBDA i : (y.u * a[i][i]) * b[i][i], y.l) + Sum(LAMBDA i : Sum(LAMBDA j : Hop(y)[i][j] * (a[i][j] + b[i][j]), y.l), y.l)
               : a \in {Rho(y, 1)}, b \in {Rho(y, 2)}})
(* phonons: displacement of mode m times w, energy shift times w *)
Disp(y, m) == One({Sum(LAMBDA i : Sum(LAMBDA j : y.g[m][i][j] * (a[i][j] + b[i][j]), y.l), y.l) : a \in {Rho(y, 1)}, b \in {Rho(y, 2)}})
HHE(y) == (y.w * HubE(y)) - (IF y.shift THEN Sum(LAMBDA m : Disp(y, m) * Disp(y, m), Len(y.g)) ELSE 0)
FockHH(y, s) == One({TLCEval([i \in 1..y.l |-> [j \in 1..y.l |-> (y.w * FockS(y, s)[i][j]) - (IF y.shift THEN 2 * Sum(LAMBDA m : d[m] * y.g[m][i][j], Len(y.g)) ELSE 0)]])
                    : d \in {[m \in 1..Len(y.g) |-> Disp(y, m)]}})
(* orbital basis *)
Mo(m0, c) == One({LET n == Len(c)  t == TLCEval([p \in 1..n |-> [j \in 1..n |-> Sum(LAMBDA q : m[p][q] * c[q][j], n)]])
             IN TLCEval([i \in 1..n |-> [j \in 1..n |-> Sum(LAMBDA p : c[p][i] * t[p][j], n)]]) : m \in {m0}})
MoS(y, m, s) == Mo(m, Orb(y, s))
C(y, i, k) == Orb(y, Spin(y.l, k))[i][Site(y.l, k)]
(* <kl|mn> of spin orbitals; electrons 1: k,m  2: l,n *)
Rep(y, k, l, m, n) == IF Spin(y.l, k) # Spin(y.l, m) \/ Spin(y.l, l) # Spin(y.l, n) THEN 0
                      ELSE y.u * Sum(LAMBDA i : (C(y, i, k) * C(y, i, l)) * (C(y, i, m) * C(y, i, n)), y.l)
RepA(y, k, l, m, n) == Rep(y, k, l, m, n) - Rep(y, k, l, n, m)
Tensor(f(_, _, _, _), a, b, c, d) == TLCEval([k \in 1..Len(a) |-> [l \in 1..Len(b) |-> [m \in 1..Len(c) |-> [n \in 1..Len(d) |-> f(a[k], b[l], c[m], d[n])]]]])
All(y) == [k \in 1..(2 * y.l) |-> k]
Of(y, s) == [k \in 1..y.l |-> ((s - 1) * y.l) + k]
OccS(y, s) == [k \in 1..NOcc(y, s) |-> ((s - 1) * y.l) + k]
VirS(y, s) == [k \in 1..(y.l - NOcc(y, s)) |-> (((s - 1) * y.l) + NOcc(y, s)) + k]
Occ(y) == OccS(y, 1) \o OccS(y, 2)
Vir(y) == VirS(y, 1) \o VirS(y, 2)
Ix(y, k) == IF k = "o" THEN Occ(y) ELSE Vir(y)
IxS(y, k, s) == IF k = "o" THEN OccS(y, s) ELSE VirS(y, s)
Sub(m0, a, b) == One({[i \in 1..Len(a) |-> [j \in 1..Len(b) |-> m[a[i]][b[j]]]] : m \in {m0}})
(* energy of the reference rebuilt from Fock matrix and integrals *)
RefE(y) == One({Sum(LAMBDA i : f[o[i]][o[i]], Len(o)) * 2 - Sum(LAMBDA i : Sum(LAMBDA j : RepA(y, o[i], o[j], o[i], o[j]), Len(o)), Len(o))
               : o \in {Occ(y)}, f \in {SO(MoS(y, FockS(y, 1), 1), MoS(y, FockS(y, 2), 2), y.l)}})
===============================================================================
