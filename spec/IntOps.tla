-------------------------------- MODULE IntOps --------------------------------
(* Spin-orbital integrals of the Pauli-Fierz Hamiltonian for correlated methods. *)
(* System y as in EnergyOps; c: orbital coefficients (atomic x molecular), no:   *)
(* doubly occupied ones.  Spin orbitals: all alpha, then all beta.               *)
EXTENDS EnergyOps
One(S) == CHOOSE x \in S : TRUE
NMo(c) == Len(c[1])
Dens(c, no) == TLCEval([p \in 1..Len(c) |-> [q \in 1..Len(c) |-> 2 * SumOver(LAMBDA i : c[p][i] * c[q][i], 1, no)]])
MoMat(m0, c) == One({LET t == TLCEval([p \in 1..Len(c) |-> [j \in 1..NMo(c) |-> SumOver(LAMBDA q : m[p][q] * c[q][j], 1, Len(c))]]) IN
               TLCEval([i \in 1..NMo(c) |-> [j \in 1..NMo(c) |-> SumOver(LAMBDA p : c[p][i] * t[p][j], 1, Len(c))]]) : m \in {m0}})
(* two-electron integrals with the self-energy of every mode, in chemists' order *)
FullEri(y) == TLCEval([p \in 1..Nb(y) |-> [q \in 1..Nb(y) |-> [r \in 1..Nb(y) |-> [t \in 1..Nb(y) |->
                 y.eri[p][q][r][t] + SumOver(LAMBDA m : y.g[m][p][q] * y.g[m][r][t], 1, NM(y))]]]])
MoEri(y, c) == LET e == FullEri(y)
                   a == TLCEval([p \in 1..Nb(y) |-> [q \in 1..Nb(y) |-> MoMat(e[p][q], c)]])
                   b == TLCEval([k \in 1..NMo(c) |-> [l \in 1..NMo(c) |-> MoMat([p \in 1..Nb(y) |-> [q \in 1..Nb(y) |-> a[p][q][k][l]]], c)]])
               IN b                      \* b[k][l][i][j] = (ij|kl) = (kl|ij)
Spin(n, p) == IF p <= n THEN 0 ELSE 1
Spat(n, p) == IF p <= n THEN p ELSE p - n
(* <pq||rs>                                                                      *)
Anti(me, n, p, q, r, s) ==
   LET v(a, b, x, z) == IF Spin(n, a) = Spin(n, x) /\ Spin(n, b) = Spin(n, z) THEN me[Spat(n, a)][Spat(n, x)][Spat(n, b)][Spat(n, z)] ELSE 0
   IN v(p, q, r, s) - v(p, q, s, r)
AntiAll(me0, n) == One({TLCEval([p \in 1..(2 * n) |-> [q \in 1..(2 * n) |-> [r \in 1..(2 * n) |-> [s \in 1..(2 * n) |-> Anti(me, n, p, q, r, s)]]]]) : me \in {me0}})
OccIdx(n, no) == [k \in 1..(2 * no) |-> IF k <= no THEN k ELSE n + k - no]
VirIdx(n, no) == [k \in 1..(2 * (n - no)) |-> IF k <= n - no THEN no + k ELSE (2 * no) + k]
Which(k, n, no) == IF k = "o" THEN OccIdx(n, no) ELSE VirIdx(n, no)
Block2(a, ks, n, no) == LET w == TLCEval([k \in 1..4 |-> Which(ks[k], n, no)]) IN
   [i \in 1..Len(w[1]) |-> [j \in 1..Len(w[2]) |-> [k \in 1..Len(w[3]) |-> [l \in 1..Len(w[4]) |-> a[w[1][i]][w[2][j]][w[3][k]][w[4][l]]]]]]
SpinMat(m, n, p, q) == IF Spin(n, p) = Spin(n, q) THEN m[Spat(n, p)][Spat(n, q)] ELSE 0
Block1(m, k1, k2, n, no) == LET a == Which(k1, n, no)  b == Which(k2, n, no) IN [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> SpinMat(m, n, a[i], b[j])]]
(* energy of the reference from Fock matrix and integrals, times 400 y.n         *)
RefEnergy(f0, a0, no, n, yn) == LET o == OccIdx(n, no) IN One({
   2 * SumOver(LAMBDA i : SpinMat(f, n, o[i], o[i]), 1, Len(o))
   - 200 * yn * SumOver(LAMBDA i : SumOver(LAMBDA j : a[o[i]][o[j]][o[i]][o[j]], 1, Len(o)), 1, Len(o)) : f \in {f0}, a \in {a0}})
===============================================================================
