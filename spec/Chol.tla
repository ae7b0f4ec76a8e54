-------------------------------- MODULE Chol --------------------------------
(* Pivoted elimination of every small integral matrix, any choice among equal   *)
(* pivots: the residual stays positive, its largest entry is its largest        *)
(* diagonal (so stopping on the diagonal bounds the error of every integral),   *)
(* it decreases, pivot rows are reproduced exactly, and as many steps as the    *)
(* rank - the same number in every order - make it vanish.                      *)
EXTENDS CholOps, Json
CONSTANTS Vals, NL, NO
VARIABLES ls, m, d, piv, gone
vars == <<ls, m, d, piv, gone>>
N2 == NO * NO
SymMats == {a \in [1..NO -> [1..NO -> {v - 1 : v \in Vals}]] : \A i, j \in 1..NO : a[i][j] = a[j][i]}
Trace(a) == LET f(i) == a[i][i] IN SumTo(f, Len(a))
Init == ls = << >> /\ m = << >> /\ d = 1 /\ piv = << >> /\ gone = 0
Begin == /\ m = << >>
         /\ \E k \in 0..NL : \E f \in [1..k -> SymMats] : ls' = f /\ m' = Gram(FlatAll(f), N2)
         /\ UNCHANGED <<d, piv, gone>>
Step == /\ m # << >> /\ MaxDiag(m) > 0
        /\ \E k \in Pivots(m) : m' = Elim(m, d, k) /\ d' = m[k][k] /\ piv' = Append(piv, k)
        /\ gone' = gone + 1 /\ UNCHANGED ls
Done == m # << >> /\ MaxDiag(m) = 0
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars
Positive == m # << >> => d > 0 /\ \A i, j \in 1..N2 : m[i][i] >= 0 /\ (m[i][i] * m[j][j]) >= (m[i][j] * m[j][i])
Bounded == m # << >> => \A i, j \in 1..N2 : m[i][j] = m[j][i] /\ Abs(m[i][j]) <= MaxDiag(m)
Fraction == (m # << >> /\ MaxDiag(m) > 0) => \A k \in Pivots(m) : Exact(m, d, k)
PivotRows == m # << >> => \A k \in 1..Len(piv) : \A j \in 1..N2 : m[piv[k]][j] = 0
RankSteps == m # << >> => (gone <= Len(ls) /\ (Done => (gone = Rank(FlatAll(ls), N2))))
Decreasing == [][m = << >> \/ (Trace(m') * d) < (Trace(m) * d')]_vars
Emit == (m # << >> /\ piv = << >>) => PrintT("CASE " \o ToJson([ls |-> ls]))
===============================================================================
