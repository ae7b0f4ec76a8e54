------------------------------ MODULE CholTrace ------------------------------
EXTENDS CholOps, Judge
Close(p, v, s, t) == \A i, j \in 1..Len(v) : Abs(p[i][j] - (s * v[i][j])) <= t
(* p = scaled product of the returned vectors; th = scaled threshold; e.x = rotation *)
FactFailing(e) ==
  IF e.oc # "ok" THEN {"integrals can be factorised"} ELSE
  LET n == e.n  n2 == n * n  ls == FlatAll(RotAll(e.ls, e.x))  v == Gram(ls, n2)
      raw == Gram(FlatAll(e.ls), n2)
  IN (IF Len(e.p) = n2 /\ \A i \in 1..n2 : Len(e.p[i]) = n2 THEN {} ELSE {"one matrix over the orbitals per vector"})
     \cup (IF e.max = 0 /\ ~Close(e.p, v, e.s, e.th) THEN {"the vectors reproduce every integral to the threshold"} ELSE {})
     \cup (IF e.nv <= Rank(FlatAll(e.ls), n2) THEN {} ELSE {"no more vectors than the rank of the integrals"})
     \cup (IF e.max > 0 /\ e.nv > e.max THEN {"no more vectors than allowed"} ELSE {})
     \cup (IF e.max > 0 THEN   \* truncated: the residual is positive and bounded by its diagonal
            LET r == TLCEval([i \in 1..n2 |-> [j \in 1..n2 |-> (e.s * v[i][j]) - e.p[i][j]]])  top == MaxDiag(r) IN
            (IF \A i \in 1..n2 : r[i][i] >= -1 /\ r[i][i] <= (e.s * v[i][i]) + 1 THEN {} ELSE {"a truncated factorisation never overshoots"})
            \cup (IF \A i, j \in 1..n2 : Abs(r[i][j]) <= top + 2 THEN {} ELSE {"the error of a truncated factorisation is bounded by its diagonal"})
            \cup (IF e.nv < e.max /\ top > e.th THEN {"a factorisation stops early only when converged"} ELSE {})
          ELSE {})
     \cup (IF e.sym THEN {} ELSE {"vectors are symmetric in their orbitals"})
H1Failing(e) == IF e.oc # "ok" THEN {} ELSE
  (IF e.h = Rot(e.h0, e.x) THEN {} ELSE {"one-body matrix is rotated with the same orbitals"})
  \cup (IF e.nuc = e.nuc0 THEN {} ELSE {"constant energy is the nuclear repulsion"})
(* splitting A F B b: vectors e (matrices) and b (numbers), k per mode, complex *)
BilFailing(e) ==
  IF e.oc # "ok" THEN {"the bilinear term can be decomposed"} ELSE
  LET nm == Len(e.a)  n == Len(e.l[1])  kk == Len(e.br) \div nm
      Re(a1, a2, b1, b2) == (a1 * b1) - (a2 * b2)
      Im(a1, a2, b1, b2) == (a1 * b2) + (a2 * b1)
      Ix(mo) == {x \in 1..Len(e.br) : x > (mo - 1) * kk /\ x <= mo * kk}
      S(mo, f(_)) == LET g(k) == f((mo - 1) * kk + k) IN SumTo(g, kk)
  IN (IF kk * nm = Len(e.br) /\ Len(e.er) = Len(e.br) THEN {} ELSE {"the same number of vectors for every mode"})
     \cup (IF \A mo \in 1..nm : \A p, q \in 1..n :
              /\ LET f(x) == Re(e.er[x][p][q], e.ei[x][p][q], e.br[x], e.bi[x]) IN S(mo, f) = ((e.s2 * e.a[mo]) * e.b[mo]) * e.l[mo][p][q]
              /\ LET f(x) == Im(e.er[x][p][q], e.ei[x][p][q], e.br[x], e.bi[x]) IN S(mo, f) = 0
           THEN {} ELSE {"cross terms are the bilinear coupling"})
     \cup (IF \A mo \in 1..nm : \A p, q, r, t \in 1..n :
              /\ LET f(x) == Re(e.er[x][p][q], e.ei[x][p][q], e.er[x][r][t], e.ei[x][r][t]) IN S(mo, f) = 0
              /\ LET f(x) == Im(e.er[x][p][q], e.ei[x][p][q], e.er[x][r][t], e.ei[x][r][t]) IN S(mo, f) = 0
           THEN {} ELSE {"electronic squares cancel"})
     \cup (IF \A mo \in 1..nm :
              /\ LET f(x) == Re(e.br[x], e.bi[x], e.br[x], e.bi[x]) IN S(mo, f) = 0
              /\ LET f(x) == Im(e.br[x], e.bi[x], e.br[x], e.bi[x]) IN S(mo, f) = 0
           THEN {} ELSE {"boson squares cancel"})
CholFailing(e) ==
  CASE e.op = "fact" -> FactFailing(e) \cup (IF e.h1 THEN H1Failing(e) ELSE {})
    [] e.op = "bilinear" -> BilFailing(e)
    [] e.op = "read" -> IF e.oc # "ok" THEN {"integrals can be read from a file"} ELSE
         (IF e.h = e.h0 THEN {} ELSE {"one-body integrals read are those written"}) \cup
         (IF e.eri = e.eri0 THEN {} ELSE {"all permutations of a two-electron integral are filled"}) \cup
         (IF e.nuc = e.nuc0 THEN {} ELSE {"constant read is the one written"})
    [] e.op = "plan" -> IF e.oc # "ok" THEN {"a plan can be made"} ELSE
         (IF \A k \in 1..Len(e.ls) : e.low[k] => e.back[k] = e.ls[k] THEN {} ELSE {"low-rank factors reproduce their vector"}) \cup
         (IF \A w \in 1..Len(e.g) : e.exx[w] = (LET f(k) == TheOne(Exx(e.ls[k], e.g[w])) IN SumTo(f, Len(e.ls))) THEN {} ELSE {"exchange by plan is the exchange"})
    [] e.op = "svd" -> IF e.oc # "ok" THEN {"vectors can be decomposed"} ELSE IF e.back = e.ls THEN {} ELSE {"low-rank factors reproduce their vector"}
    [] e.op = "mol" -> IF e.oc = "ok" /\ e.err <= e.th /\ e.nv <= e.top /\ e.nv >= 1 THEN {} ELSE {"vectors of a molecule reproduce its integrals to the threshold"}
    [] OTHER -> {"unknown event"}
===============================================================================
