-------------------------------- MODULE Energy -------------------------------
(* The functional as a transition system: the density matrix moves by           *)
(* electron-number conserving elementary changes; the energy is carried along   *)
(* with the Fock matrices only.                                                 *)
EXTENDS EnergyOps
CONSTANTS Dmax, Cs, Dse, MaxLen
VARIABLES d, e, len
vars == <<d, e, len>>
Y == [h |-> <<<<-3, 1>>, <<1, -2>>>>, s |-> <<<<2, 1>>, <<1, 1>>>>, si |-> <<<<1, -1>>, <<-1, 2>>>>,
      eri |-> [p \in 1..2 |-> [q \in 1..2 |-> [r \in 1..2 |-> [t \in 1..2 |-> LET a == p + q  b == r + t IN IF a = b THEN 3 ELSE (a * b) % 3]]]],
      g |-> <<<<<<1, 2>>, <<2, -1>>>>, <<<<0, 1>>, <<1, 2>>>>>>, q |-> <<<<<<-5, 0>>, <<0, -4>>>>, <<<<-1, -1>>, <<-1, -3>>>>>>,
      n |-> 2, dse |-> Dse, cb |-> FALSE, cs |-> Cs]
B == [z |-> <<1, -2>>, rt |-> <<2, 1>>, bb |-> IF Cs THEN <<0, 0>> ELSE <<24, -7>>, eb |-> 3]
Moves == {<<<<a, c>>, <<c, f>>>> : a \in -1..1, c \in -1..1, f \in -2..2}
N(x) == Tr2(x, Y.s)
Add(x, y) == [p \in 1..2 |-> [q \in 1..2 |-> x[p][q] + y[p][q]]]
Init == d = <<<<0, 0>>, <<0, 2>>>> /\ e = 2 * Y.n * Energy(Y, B, d) /\ len = 0
Next == \E m \in Moves : /\ len < MaxLen /\ N(m) = 0
                         /\ LET d2 == Add(d, m) IN
                            /\ \A p, q \in 1..2 : Abs(d2[p][q]) <= Dmax
                            /\ d' = d2
                            /\ e' = e + Tr2(Add(Fock(Y, B, d), Fock(Y, B, d2)), m)       \* 2n * 200 E, exact because E is quadratic
                            /\ len' = len + 1
Spec == Init /\ [][Next]_vars
FockIsGradient == e = 2 * Y.n * Energy(Y, B, d)
(* with all modes in their displaced vacuum the coherent state is the best displacement *)
V == [B EXCEPT !.bb = <<0, 0>>]
CoherentIsBest == LET yc == [Y EXCEPT !.cs = TRUE]  yf == [Y EXCEPT !.cs = FALSE] IN
   \A z1, z2 \in -3..3 : Energy(yc, V, d) <= Energy(yf, [V EXCEPT !.z = <<z1, z2>>], d)
(* the order of the modes does not matter                                        *)
Swap(s) == <<s[2], s[1]>>
ModeOrder == Energy([Y EXCEPT !.g = Swap(Y.g), !.q = Swap(Y.q)], [B EXCEPT !.z = Swap(B.z), !.rt = Swap(B.rt), !.bb = Swap(B.bb)], d) = Energy(Y, B, d)
(* an uncoupled mode adds nothing but its own energy                             *)
Zero == <<<<0, 0>>, <<0, 0>>>>
DarkMode == Energy([Y EXCEPT !.g = Append(Y.g, Zero), !.q = Append(Y.q, Zero)], [z |-> Append(B.z, 0), rt |-> Append(B.rt, 3), bb |-> Append(B.bb, 5), eb |-> B.eb], d) = Energy(Y, B, d)
===============================================================================
