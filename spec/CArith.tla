-------------------------------- MODULE CArith --------------------------------
(* Gaussian integers <<re, im>>, matrices of them (sequences of rows).          *)
EXTENDS Arith, TLC
CZ == <<0, 0>>
C1 == <<1, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a)   == <<a[1], -a[2]>>
CScale(k, a) == <<k * a[1], k * a[2]>>
CNorm2(a)  == a[1] * a[1] + a[2] * a[2]
RECURSIVE CSumOver(_, _, _)
CSumOver(F(_), lo, hi) == IF lo > hi THEN CZ ELSE CAdd(F(lo), CSumOver(F, lo + 1, hi))
Rows(m) == Len(m)
Cols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
(* (a^dagger b): rows of the result run over columns of a                       *)
AdjMul(a, b) == TLCEval([i \in 1..Cols(a) |-> [j \in 1..Cols(b) |->
                  CSumOver(LAMBDA p : CMul(CConj(a[p][i]), b[p][j]), 1, Rows(a))]])
MMul(a, b) == TLCEval([i \in 1..Rows(a) |-> [j \in 1..Cols(b) |->
                  CSumOver(LAMBDA p : CMul(a[i][p], b[p][j]), 1, Cols(a))]])
Minor(m, c) == TLCEval([i \in 1..(Len(m) - 1) |-> [j \in 1..(Len(m) - 1) |-> m[i + 1][IF j < c THEN j ELSE j + 1]]])
RECURSIVE Det(_)
Det(m) == IF Len(m) = 0 THEN C1
          ELSE IF Len(m) = 1 THEN m[1][1]
          ELSE IF Len(m) = 2 THEN CSub(CMul(m[1][1], m[2][2]), CMul(m[1][2], m[2][1]))
          ELSE CSumOver(LAMBDA c : CMul(CScale(IF c % 2 = 1 THEN 1 ELSE -1, m[1][c]), Det(Minor(m, c))), 1, Len(m))
(* m with columns in set cs taken from x                                        *)
Replace(m, x, cs) == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> IF j \in cs THEN x[i][j] ELSE m[i][j]]])
===============================================================================
