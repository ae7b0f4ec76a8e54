------------------------------ MODULE WeightOps ------------------------------
(* Weight control as functions.  All quantities in units of 1/S.               *)
EXTENDS Arith, TLC
(* weights are capped at a tenth of the recorded total, from the second step on *)
Cap(x, bound) == IF x > bound THEN bound ELSE IF x < -bound THEN -bound ELSE x
Capped(w, step, total) == IF step > 0 THEN [i \in 1..Len(w) |-> Cap(w[i], total \div 10)] ELSE w
SumAbs(w) == LET F(i) == Abs(w[i]) IN SumOver(F, 1, Len(w))
Due(step, freq) == (step + 1) % freq = 0
(* walkers of each of r ranks *)
Share(n, r, k) == n \div r + (IF k < n % r THEN 1 ELSE 0)      \* k = 0..r-1
===============================================================================
