-------------------------------- MODULE MdInt --------------------------------
(* The integrators: Runge-Kutta is exact for cubic right-hand sides of time and *)
(* to fourth order for a linear equation, also when steps are repeated; Verlet  *)
(* is reversible and conserves momentum for opposite forces.                    *)
EXTENDS MdOps
CONSTANTS R, Cs, Hs
VARIABLES q
Small == -2..2
SmallDeep == -4..4
Coef == {-1, 0, 2}
Steps == {-1, 1, 2}
Init == q \in {"rk", "verlet"} \X Hs
Next == /\ q[1] \in {"rk", "verlet"}
        /\ \/ q[1] = "rk" /\ \E c \in [1..6 -> Cs], t \in R, y \in R : q' = <<"rkcase", q[2], c, t, y>>
           \/ q[1] = "verlet" /\ \E x \in R, v \in R, a \in [1..3 -> R] : q' = <<"vcase", q[2], x, v, a>>
Spec == Init /\ [][Next]_q
RkExact == q[1] = "rkcase" => LET h == q[2]  c == q[3]  t == q[4]  y == q[5]
   u == t + (2 * h)
   P(s) == (12 * c[1] * s) + (6 * c[2] * s * s) + (4 * c[3] * s * s * s) + (3 * c[6] * s * s * s * s)    \* 12 times the primitive
   z == c[4] * 2 * h
   lin == [c EXCEPT ![1] = 0, ![2] = 0, ![3] = 0, ![5] = 0, ![6] = 0]
   cub == [c EXCEPT ![4] = 0, ![5] = 0]
  IN /\ 4 * RkInc(cub, t, y, h) = P(u) - P(t)
     /\ 8 * RkInc(lin, t, y, h) = y * ((24 * z) + (12 * z * z) + (4 * z * z * z) + (z * z * z * z))
(* force: any function of the position's residue                                 *)
Acc(a, x) == a[1 + (x % 3)]
Reversible == q[1] = "vcase" => LET h == q[2]  x == q[3]  v == q[4]  a == q[5]
   v1 == v + (h * Acc(a, x))  x1 == x + (2 * h * v1)  v2 == v1 + (h * Acc(a, x1))
   w1 == -v2 + (h * Acc(a, x1))  y1 == x1 + (2 * h * w1)  w2 == w1 + (h * Acc(a, y1))
  IN y1 = x /\ w2 = -v
===============================================================================
