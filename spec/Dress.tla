-------------------------------- MODULE Dress --------------------------------
(* Walk through the parameter space of the dressed functional for a fixed       *)
(* two-orbital system: limits and symmetries of the functional.                 *)
EXTENDS VarOps
CONSTANTS Grid
VARIABLES x, d
vars == <<x, d>>
Y == [h |-> <<<<-15000, 4000>>, <<4000, -9000>>>>, g |-> <<-3000, 5000>>, q |-> <<-2500, -4000>>, w |-> 5000, dse |-> TRUE, kind |-> "VT",
      eri |-> [p \in 1..2 |-> [q \in 1..2 |-> [r \in 1..2 |-> [t \in 1..2 |-> LET a == p + q  b == r + t IN IF a = b THEN 6000 ELSE 500 * ((a * b) % 7)]]]]]
P0 == <<<<S>>>>
P2 == <<<<9216, 0, 2688>>, <<0, 0, 0>>, <<2688, 0, 784>>>>          \* (0.96, 0, 0.28)
Init == x = [eta |-> <<0, 0>>, f |-> 0, r |-> 0, pdm |-> P0, z |-> 0, eb |-> 0] /\ d \in {<<<<20000, 0>>, <<0, 0>>>>, <<<<14000, 9165>>, <<9165, 6000>>>>}
SetF == \E v \in Grid : x' = [x EXCEPT !.f = v] /\ UNCHANGED d
SetE == \E v, u \in Grid : x' = [x EXCEPT !.eta = <<v - 2500, u>>] /\ UNCHANGED d
SetR == \E v \in Grid : x' = [x EXCEPT !.r = v \div 5] /\ UNCHANGED d
SetP == x' = [x EXCEPT !.pdm = IF x.pdm = P0 THEN P2 ELSE P0] /\ UNCHANGED d
SetZ == \E v \in Grid : x' = [x EXCEPT !.z = v - 2500] /\ UNCHANGED d
Next == SetF \/ SetE \/ SetR \/ SetP \/ SetZ
Spec == Init /\ [][Next]_vars
Near(a, b, t) == Abs(a - b) <= t
Mu == FTr(Y.g, d)
HF == SumOver(LAMBDA p : SumOver(LAMBDA q : FMul(Y.h[p][q], d[p][q]), 1, 2), 1, 2)
      + SumOver(LAMBDA p : SumOver(LAMBDA q : SumOver(LAMBDA r : SumOver(LAMBDA t : FMul(RDiv((2 * Y.eri[p][q][r][t]) - Y.eri[p][t][r][q], 4), FMul(d[p][q], d[r][t])), 1, 2), 1, 2), 1, 2), 1, 2)
Bare == [x EXCEPT !.eta = <<0, 0>>, !.f = 0]
(* an untransformed state has the QED-HF energy                                   *)
Untransformed == Near(VarEnergy(Y, Bare, d), HF + Residual(Y, Bare, d), 30)
(* the full transformation leaves no residual coupling                            *)
Full == x.f = S => Near(Residual(Y, x, d), 0, 5)
(* the renormalisation never exceeds one for the vacuum and is even               *)
Renorm == \A p, q \in 1..2 : LET u == x.eta[p] - x.eta[q] IN Near(Chi(Y, x, u), Chi(Y, x, -u), 5) /\ (x.pdm = P0 => Chi(Y, x, u) <= S)
(* moving all orbital displacements together changes the dipole terms only        *)
Shifted == [x EXCEPT !.eta = <<x.eta[1] + 1000, x.eta[2] + 1000>>]
Common == LET a == GE(Y, x)  b == GE(Y, Shifted) IN \A p \in 1..2 : Near(a[p] - b[p], 1000, 3)
===============================================================================
