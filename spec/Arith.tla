-------------------------------- MODULE Arith --------------------------------
(* Integer helpers shared by the specifications.                               *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x)    == IF x < 0 THEN -x ELSE x
Max2(a,b) == IF a > b THEN a ELSE b
Min2(a,b) == IF a < b THEN a ELSE b
RECURSIVE SumSeqTo(_, _)
SumSeqTo(s, n) == IF n = 0 THEN 0 ELSE SumSeqTo(s, n - 1) + s[n]
SumSeq(s) == SumSeqTo(s, Len(s))
RECURSIVE SumOver(_, _, _)
SumOver(F(_), lo, hi) == IF lo > hi THEN 0 ELSE F(lo) + SumOver(F, lo + 1, hi)
RECURSIVE ProdOver(_, _, _)
ProdOver(F(_), lo, hi) == IF lo > hi THEN 1 ELSE F(lo) * ProdOver(F, lo + 1, hi)
CeilDiv(a, b) == -((-a) \div b)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Range(s) == {s[i] : i \in 1..Len(s)}
(* a value the projection could not represent exactly *)
NOTINT == 1999999999
===============================================================================
