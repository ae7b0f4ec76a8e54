------------------------------ MODULE CholOps ------------------------------
(* Factorised two-electron integrals.  Integrals are a positive matrix over     *)
(* orbital pairs V = sum_n l_n l_n^T; pivoted elimination is done fraction-free *)
(* (residual = m / d, both integers).                                           *)
EXTENDS Arith, TLC
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
Flat(a) == LET n == Len(a) IN [x \in 1..(n * n) |-> a[((x - 1) \div n) + 1][((x - 1) % n) + 1]]
Gram(ls, n2) == TLCEval([x \in 1..n2 |-> [y \in 1..n2 |-> LET f(k) == ls[k][x] * ls[k][y] IN SumTo(f, Len(ls))]])
MaxDiag(m) == CHOOSE v \in {m[i][i] : i \in 1..Len(m)} : \A i \in 1..Len(m) : m[i][i] <= v
Pivots(m) == {i \in 1..Len(m) : m[i][i] = MaxDiag(m)}
Elim(m, d, k) == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> (((m[i][j] * m[k][k]) - (m[i][k] * m[k][j])) \div d)]])
Exact(m, d, k) == \A i, j \in 1..Len(m) : (((m[i][j] * m[k][k]) - (m[i][k] * m[k][j])) % d) = 0
RECURSIVE Steps(_, _)
Steps(m, d) == IF MaxDiag(m) = 0 THEN 0 ELSE LET k == CHOOSE i \in Pivots(m) : TRUE IN 1 + Steps(Elim(m, d, k), m[k][k])
Rank(ls, n2) == IF Len(ls) = 0 THEN 0 ELSE Steps(Gram(ls, n2), 1)
(* rotation of a pair vector: X^T l X *)
Rot(l, x) == LET n == Len(l) IN TLCEval([p \in 1..n |-> [q \in 1..n |->
   LET f(i) == LET g(j) == (x[i][p] * l[i][j]) * x[j][q] IN SumTo(g, n) IN SumTo(f, n)]])
RotAll(ls, x) == TLCEval([k \in 1..Len(ls) |-> Rot(ls[k], x)])
FlatAll(ls) == TLCEval([k \in 1..Len(ls) |-> Flat(ls[k])])
(* exchange tr(L G L G) *)
Mul(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> LET f(k) == a[i][k] * b[k][j] IN SumTo(f, Len(b))]])
Exx(l, g) == UNION {{LET f(i) == LET h(j) == a[i][j] * a[j][i] IN SumTo(h, Len(a)) IN SumTo(f, Len(a))} : a \in {Mul(l, g)}}
TheOne(S) == CHOOSE v \in S : TRUE
===============================================================================
