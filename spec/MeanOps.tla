------------------------------- MODULE MeanOps -------------------------------
(* Descriptions of one and the same physical system.  A cavity is a sequence of  *)
(* modes [w, v] (v integer coupling vector); in the coherent-state mean field    *)
(* the modes act through the sum of v v^T alone.  A frame is a signed            *)
(* permutation matrix (proper or improper rotation) applied to molecule and      *)
(* vectors alike.                                                               *)
EXTENDS Arith, TLC
RDiv(a, b) == ((2 * a) + b) \div (2 * b)
XYZ == 1..3
Mat(f(_, _)) == [i \in XYZ |-> [j \in XYZ |-> f(i, j)]]
Unit == TLCEval(Mat(LAMBDA i, j : IF i = j THEN 1 ELSE 0))
MulM(a, b) == TLCEval(Mat(LAMBDA i, j : SumOver(LAMBDA k : a[i][k] * b[k][j], 1, 3)))
Tr(a) == TLCEval(Mat(LAMBDA i, j : a[j][i]))
App(a, v) == TLCEval([i \in XYZ |-> SumOver(LAMBDA k : a[i][k] * v[k], 1, 3)])
Dot3(a, b) == SumOver(LAMBDA k : a[k] * b[k], 1, 3)
Tensor(ms) == TLCEval(Mat(LAMBDA i, j : SumOver(LAMBDA k : ms[k].v[i] * ms[k].v[j], 1, Len(ms))))
(* a frame is an orthogonal matrix with rational entries: m / s                  *)
Frame(m, s) == [m |-> m, s |-> s]
Straight == Frame(Unit, 1)
Turn(r, t) == MulM(r.m, MulM(t, Tr(r.m)))
Scaled(t, k) == TLCEval(Mat(LAMBDA i, j : k * t[i][j]))
SameCavity(ms, ms0, r) == Scaled(Tensor(ms), r.s * r.s) = Turn(r, Tensor(ms0))
RotZ == Frame(<< <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>, 1)
RotX == Frame(<< <<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>> >>, 1)
Mirror == Frame(<< <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>, 1)
(* turns about an axis by the angle of the 3-4-5 triangle, and one about the     *)
(* diagonal                                                                     *)
TiltX == Frame(<< <<5, 0, 0>>, <<0, 3, -4>>, <<0, 4, 3>> >>, 5)
TiltZ == Frame(<< <<3, 4, 0>>, <<-4, 3, 0>>, <<0, 0, 5>> >>, 5)
TiltY == Frame(<< <<4, 0, 3>>, <<0, 5, 0>>, <<-3, 0, 4>> >>, 5)
Frames == {RotZ, RotX, Mirror, TiltX, TiltY, TiltZ}
Then(a, b) == Frame(MulM(a.m, b.m), a.s * b.s)
Fits(r, v) == \A i \in XYZ : App(r.m, v)[i] % r.s = 0
Turned(r, v) == [i \in XYZ |-> App(r.m, v)[i] \div r.s]
Neg(v) == [i \in XYZ |-> -v[i]]
Fifth(v) == \A i \in XYZ : v[i] % 5 = 0
Mixed(a, b, c, d) == [i \in XYZ |-> ((c * a[i]) + (d * b[i])) \div 5]
Swapped(s, i, j) == [k \in 1..Len(s) |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]
===============================================================================
