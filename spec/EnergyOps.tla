------------------------------ MODULE EnergyOps ------------------------------
(* The QED-HF energy functional of an electronic density matrix D and a product *)
(* state of displaced boson modes, in integers.  A system is a record           *)
(*   h, eri, s, si, g (one matrix per mode), q, n (electrons), dse, cb          *)
(* and the boson part z (displacements), rt (sqrt(omega/2)*2), bb (25*<b+b^+>), *)
(* eb (boson energy).  Energies are multiplied by 200, Fock matrices by 200*n.  *)
EXTENDS Arith, TLC
Nb(y) == Len(y.h)
Tr2(a, b) == SumOver(LAMBDA p : SumOver(LAMBDA q : a[p][q] * b[p][q], 1, Len(a)), 1, Len(a))
Mul(a, b) == TLCEval([p \in 1..Len(a) |-> [q \in 1..Len(a) |-> SumOver(LAMBDA r : a[p][r] * b[r][q], 1, Len(a))]])
Coul(y, d) == TLCEval([p \in 1..Nb(y) |-> [q \in 1..Nb(y) |-> SumOver(LAMBDA r : SumOver(LAMBDA t : y.eri[p][q][r][t] * d[r][t], 1, Nb(y)), 1, Nb(y))]])
Exch(y, d) == TLCEval([p \in 1..Nb(y) |-> [q \in 1..Nb(y) |-> SumOver(LAMBDA r : SumOver(LAMBDA t : y.eri[p][r][q][t] * d[r][t], 1, Nb(y)), 1, Nb(y))]])
NM(y) == Len(y.g)
Mu(y, d, m) == Tr2(y.g[m], d)
Gdg(y, d, m) == Mul(Mul(y.g[m], d), y.g[m])
(* twice the one-body part of the dipole self-energy of a mode                   *)
Self2(y, m) == IF y.cb THEN TLCEval([p \in 1..Nb(y) |-> [q \in 1..Nb(y) |-> -y.q[m][p][q]]]) ELSE Mul(Mul(y.g[m], y.si), y.g[m])
Disp(y, d, z, m) == IF y.cs THEN Mu(y, d, m) ELSE z[m]
(* 200 E                                                                         *)
Energy(y, b, d) ==
  200 * Tr2(y.h, d) + 100 * Tr2(Coul(y, d), d) - 50 * Tr2(Exch(y, d), d)
  + SumOver(LAMBDA m : LET z == Disp(y, d, b.z, m)  u == Mu(y, d, m) IN
        (-200 * z * u) + (100 * z * z) + (4 * b.rt[m] * b.bb[m] * (u - z))
        + (IF y.dse THEN 100 * Tr2(Self2(y, m), d) + (100 * u * u) - 50 * Tr2(Gdg(y, d, m), d) ELSE 0), 1, NM(y))
  + 200 * b.eb
(* 200 n F                                                                       *)
Fock(y, b, d) == LET j == Coul(y, d)  k == Exch(y, d)
     sf == TLCEval([m \in 1..NM(y) |-> Self2(y, m)])  gg == TLCEval([m \in 1..NM(y) |-> Gdg(y, d, m)])
  IN TLCEval([p \in 1..Nb(y) |-> [q \in 1..Nb(y) |->
     (200 * y.n * (y.h[p][q] + j[p][q])) - (100 * y.n * k[p][q])
     + SumOver(LAMBDA m : LET z == Disp(y, d, b.z, m)  u == Mu(y, d, m) IN
          (-200 * y.n * z * y.g[m][p][q]) + (100 * z * z * y.s[p][q]) + (4 * b.rt[m] * b.bb[m] * ((y.n * y.g[m][p][q]) - (z * y.s[p][q])))
          + (IF y.dse THEN y.n * ((100 * sf[m][p][q]) + (200 * u * y.g[m][p][q]) - (100 * gg[m][p][q])) ELSE 0), 1, NM(y))
     + (200 * b.eb * y.s[p][q])]])
===============================================================================
