------------------------------ MODULE BosonOps -------------------------------
(* A set of boson (cavity) modes.  Input polarisation vectors have integer      *)
(* length; everything derived from a mode is a function of that mode alone.     *)
EXTENDS Fixed
(* ---------------------------- set-up of the modes ---------------------------- *)
(* c = [omega, vec, gfac, nb : presence and shapes], see Accepted               *)
IsPos(n) == n > 0
Accepted(c) == /\ c.omkind \in {"float", "list", "array"}
               /\ c.vecrows = c.nm /\ c.veccols = 3
               /\ c.gkind \in {"none"} \cup {"list", "array"} /\ (c.gkind # "none" => c.glen = c.nm)
               /\ c.nbkind \in {"int", "list", "array"} /\ (c.nbkind # "int" => Len(c.nb) = c.nm) /\ \A i \in 1..Len(c.nb) : c.nb[i] > 0
               /\ (c.zkind # "none" => c.zlen = c.nm)
Norm2(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
ISqrt(n) == CHOOSE k \in 0..100 : k * k <= n /\ (k + 1) * (k + 1) > n
States(c) == [i \in 1..c.nm |-> IF c.nbkind = "int" THEN c.nb[1] ELSE c.nb[i]]
(* ---------------------------- symmetric packing ------------------------------ *)
(* zero-based (i, j) of a symmetric matrix -> position in the packed triangle   *)
PackPos(i, j) == IF i >= j THEN (i * (i + 1)) \div 2 + j ELSE (j * (j + 1)) \div 2 + i
Pack(m) == [k \in 1..((Len(m) * (Len(m) + 1)) \div 2) |->
              LET ij == CHOOSE p \in (0..(Len(m) - 1)) \X (0..(Len(m) - 1)) : p[1] >= p[2] /\ PackPos(p[1], p[2]) = k - 1
              IN m[ij[1] + 1][ij[2] + 1]]
Unpack(a, n, fac) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN a[PackPos(i - 1, j - 1) + 1] ELSE a[PackPos(i - 1, j - 1) + 1] \div fac]]
(* --------------------------- displaced Fock states --------------------------- *)
RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN S ELSE FMul(x, FPow(x, n - 1))
(* generalised Laguerre polynomial by its three-term recursion, x fixed-point    *)
RECURSIVE Lag(_, _, _)
Lag(n, k, x) == IF n = 0 THEN S ELSE IF n = 1 THEN (1 + k) * S - x
                ELSE Only({RDiv(FMul(((2 * n - 1 + k) * S) - x, a) - (n - 1 + k) * b, n) : a \in {Lag(n - 1, k, x)}, b \in {Lag(n - 2, k, x)}})
RECURSIVE Fall(_, _)
Fall(m, n) == IF m <= n THEN 1 ELSE m * Fall(m - 1, n)          \* m! / n!
(* <m| D |n>, m >= n, without the Gaussian                                       *)
DElem(m, n, f) == FDiv(FMul(FPow(-f, m - n), Lag(n, m - n, FMul(f, f))), FSqrt(Fall(m, n) * S))
Gauss(f) == FExp(-RDiv(FMul(f, f), 2))
(* expectation value of the displacement in a boson density matrix (integers,    *)
(* halves off the diagonal are not needed): pairs counted twice                  *)
DExp(f, pdm) == SumOver(LAMBDA m : SumOver(LAMBDA n : IF n > m THEN 0 ELSE (IF n = m THEN 1 ELSE 2) * pdm[m][n] * DElem(m - 1, n - 1, f), 1, Len(pdm)), 1, Len(pdm))
(* its derivative: d/df [f^k L(f^2) exp(-f^2/2)] by the product rule              *)
DLag(n, k, f) == IF n = 0 THEN 0 ELSE -2 * FMul(f, Lag(n - 1, k + 1, FMul(f, f)))
DDElem(m, n, f) == LET k == m - n  L == Lag(n, k, FMul(f, f)) IN
                   FDiv(FMul(-f, FMul(FPow(-f, k), L)) + FMul(FPow(-f, k), DLag(n, k, f)) + (IF k = 0 THEN 0 ELSE -k * FMul(FPow(-f, k - 1), L)), FSqrt(Fall(m, n) * S))
DDExp(f, pdm) == SumOver(LAMBDA m : SumOver(LAMBDA n : IF n > m THEN 0 ELSE (IF n = m THEN 1 ELSE 2) * pdm[m][n] * DDElem(m - 1, n - 1, f), 1, Len(pdm)), 1, Len(pdm))
(* --------------------------- Hamiltonian of a mode --------------------------- *)
Cosh2(r) == RDiv(FExp(2 * r) + FExp(-2 * r), 2)
Sinh2(r) == RDiv(FExp(2 * r) - FExp(-2 * r), 2)
SinhSq(r) == RDiv(Cosh2(r) - S, 2)
(* omega (n cosh 2r + sinh^2 r) + za (b + b^+), 1-based rows of a mode with n states *)
ModeH(n, w, za, r) == TLCEval([i \in 1..n |-> [j \in 1..n |->
     IF i = j THEN FMul(w, (i - 1) * Cosh2(r) + SinhSq(r)) ELSE IF i = j + 1 THEN FMul(za, FSqrt(j * S)) ELSE IF j = i + 1 THEN FMul(za, FSqrt(i * S)) ELSE 0]])
RECURSIVE Off(_, _)
Off(ns, m) == IF m = 1 THEN 0 ELSE ns[m - 1] + Off(ns, m - 1)
ModeOf(ns, i) == CHOOSE m \in 1..Len(ns) : Off(ns, m) < i /\ i <= Off(ns, m) + ns[m]
===============================================================================
