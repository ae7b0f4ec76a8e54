------------------------------- MODULE RankOps -------------------------------
(* Walkers distributed over ranks, and ensemble sums over them.                *)
EXTENDS Arith
Share(n, R, r)  == (n \div R) + (IF r <= n % R THEN 1 ELSE 0)      \* r in 1..R
Offset(n, R, r) == SumOver(LAMBDA q : Share(n, R, q), 1, r - 1)
Owned(n, R, r)  == (Offset(n, R, r) + 1)..(Offset(n, R, r) + Share(n, R, r))
Near(a, b, t)   == a # NOTINT /\ b # NOTINT /\ Abs(a - b) <= t
===============================================================================
