------------------------------- MODULE VarOps --------------------------------
(* Variationally transformed mean field: parameters and dressed functional.     *)
EXTENDS BosonOps
(* ------------------------------ parameters ------------------------------------ *)
(* s = [eta, f, r] with flags o = [f, r]: the packed vector holds the displaced  *)
(* orbital parameters, then those of couplings and squeezing which are optimised *)
PackVar(s, o) == s.eta \o (IF o.f THEN s.f ELSE <<>>) \o (IF o.r THEN s.r ELSE <<>>)
UnpackVar(v, s, o) == LET ne == Len(s.eta)  nf == IF o.f THEN Len(s.f) ELSE 0 IN
   [eta |-> SubSeq(v, 1, ne), f |-> IF o.f THEN SubSeq(v, ne + 1, ne + nf) ELSE s.f, r |-> IF o.r THEN SubSeq(v, ne + nf + 1, ne + nf + Len(s.r)) ELSE s.r]
MinusV(a, b, k) == [i \in 1..Len(a) |-> a[i] - (k * b[i])]
(* one steepest-descent step, gradient gr = [eta, f, r], step k                  *)
StepVar(s, gr, o, k) == [eta |-> MinusV(s.eta, gr.eta, k), f |-> IF o.f THEN MinusV(s.f, gr.f, k) ELSE s.f, r |-> IF o.r THEN MinusV(s.r, gr.r, k) ELSE s.r]
(* ------------------------- dressed energy functional -------------------------- *)
(* one mode; orbitals are eigenfunctions of the coupling (values y.g);           *)
(* y = [h, eri, g, w, dse, kind], x = [eta, f, r, pdm, z, eb], all fixed-point   *)
NO(y) == Len(y.h)
Chi(y, x, u) == LET fac == FDiv(FMul(FExp(x.r), u), y.w) IN
                IF Len(x.pdm) = 1 THEN Gauss(fac)
                ELSE FMul(Gauss(fac), SumOver(LAMBDA m : SumOver(LAMBDA n : IF n > m THEN 0 ELSE (IF n = m THEN 1 ELSE 2) * FMul(x.pdm[m][n], DElem(m - 1, n - 1, fac)), 1, Len(x.pdm)), 1, Len(x.pdm)))
GE(y, x) == TLCEval([p \in 1..NO(y) |-> FMul(FMul(x.f, y.g[p]), FSqrt(y.w \div 2)) - x.eta[p]])
FTr(a, d) == SumOver(LAMBDA p : FMul(a[p], d[p][p]), 1, Len(a))
Dressed(y, x, d) ==
  LET n == NO(y)  ge == GE(y, x)
      c1 == TLCEval([p \in 1..n |-> [q \in 1..n |-> Chi(y, x, x.eta[p] - x.eta[q])]])
      one == SumOver(LAMBDA p : SumOver(LAMBDA q : FMul(FMul(y.h[p][q], c1[p][q]), d[p][q]), 1, n), 1, n)
      dia == SumOver(LAMBDA p : FDiv(FMul(FMul(ge[p], ge[p]), d[p][p]), y.w), 1, n)
      two == SumOver(LAMBDA p : SumOver(LAMBDA q : SumOver(LAMBDA r : SumOver(LAMBDA t :
                 LET k == Chi(y, x, x.eta[p] - x.eta[q] + x.eta[r] - x.eta[t]) IN
                 FMul(FMul(k, RDiv((2 * y.eri[p][q][r][t]) - y.eri[p][t][r][q], 4)), FMul(d[p][q], d[r][t])), 1, n), 1, n), 1, n), 1, n)
      gd == FTr(ge, d)
      dip == FDiv(FMul(gd, gd) - RDiv(SumOver(LAMBDA p : SumOver(LAMBDA q : FMul(FMul(ge[p], ge[q]), FMul(d[p][q], d[p][q])), 1, n), 1, n), 2), y.w)
  IN one + dia + two + dip
(* what the transformation leaves: residual self-energy and bilinear coupling    *)
Residual(y, x, d) ==
  LET n == NO(y)  mu == FTr(y.g, d)
      gv == IF y.dse THEN FMul(S - x.f, S - x.f) ELSE FMul(x.f, x.f - (2 * S))
      self == IF y.dse THEN -RDiv(FTr(y.q, d), 2) ELSE 0
      ex == SumOver(LAMBDA p : SumOver(LAMBDA q : FMul(FMul(y.g[p], y.g[q]), FMul(d[p][q], d[p][q])), 1, n), 1, n)
      bb == 2 * SumOver(LAMBDA i : FMul(FSqrt(i * S), x.pdm[i][i + 1]), 1, Len(x.pdm) - 1)
  IN FMul(gv, RDiv(FMul(mu - x.z, mu - x.z), 2) + self - RDiv(ex, 4)) + FMul(FMul(S - x.f, FSqrt(y.w \div 2)), FMul(bb, mu - x.z))
VarEnergy(y, x, d) == Dressed(y, x, d) + x.eb + (IF y.kind = "VT" THEN Residual(y, x, d) ELSE 0)
===============================================================================
