------------------------------- MODULE Block -------------------------------
(* Theorems about the building blocks over all small inputs, and the histories  *)
(* of backend selections; every state is a case for the code.                   *)
EXTENDS BlockOps, Json
CONSTANTS XMax, MMax, NF, NMode, Order, Depth, Orb
VARIABLES c, be, hist
vars == <<c, be, hist>>
Ints == (0 - XMax)..XMax
Names == {"numpy", "numpy.float16", "numpy.float32", "numpy.float64", "numpy.cuda", "torch", "fortran", "numpy.cuda.float32"}
GI == {<<a, b>> : a \in -1..1, b \in -1..1}
Mat2(S) == {<< <<p, q>>, <<r, s>> >> : p \in S, q \in S, r \in S, s \in S}
GInts == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, 1>>}
Units == { << <<C1, CZ>>, <<CZ, C1>> >>, << <<CZ, C1>>, <<C1, CZ>> >>, << << <<0, 1>>, CZ>>, <<CZ, <<-1, 0>> >> >>, << <<CZ, <<0, -1>> >>, <<C1, CZ>> >> }
Asc(S, k) == {s \in [1..k -> S] : \A i \in 1..(k - 1) : s[i] < s[i + 1]}
Vecs3 == {<<x, y, z>> : x \in -1..1, y \in -1..1, z \in -1..1}
Init == c = [t |-> "none"] /\ be = "float64" /\ hist = << >>
Pick(r) == c' = r
Next ==
  \/ /\ c.t = "none" /\ hist = << >> /\ UNCHANGED <<be, hist>>
     /\ \/ \E rep \in {"Q", "P"}, m \in 1..MMax, w \in 1..MMax, x \in Ints, y \in Ints, s \in Ints, v \in {0, 1} :
             Pick([t |-> "osc", rep |-> rep, m |-> m, w |-> w, x |-> <<x, y>>, s |-> <<s, s + v>>])
        \/ \E a \in GI, b \in GI, nf \in 1..NF, nm \in 1..NMode : Pick([t |-> "coh", al |-> SubSeq(<<a, b, a>>, 1, nm), nf |-> nf])
        \/ \E d \in Ints, e \in Ints : Pick([t |-> "zfs", D |-> d, E |-> e])
        \/ \E a \in Vecs3, b \in Vecs3, d \in Vecs3 : Pick([t |-> "chol", v |-> <<a, b, d>>])
        \/ \E k \in 1..Orb : \E r \in Asc(1..Orb, k), g \in Asc(1..Orb, k) : Pick([t |-> "sign", ref |-> r, tgt |-> g])
        \/ \E a \in Mat2(GInts), v \in GInts, K \in 0..Order : Pick([t |-> "exp", a |-> a, v |-> << <<C1>>, <<v>> >>, K |-> K])
        \/ \E a \in Mat2(GInts), u \in Units, w \in Units : Pick([t |-> "uni", a |-> a, u |-> u, w |-> w])
  \/ /\ c.t = "none" /\ Len(hist) < Depth
     /\ \E n \in Names : hist' = Append(hist, n) /\ be' = Select(be, n)
     /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
(* ---- theorems *)
Shifted(x, i, d) == [x EXCEPT ![i] = @ + d]
OscOk == c.t = "osc" => LET mw == c.m * c.w IN
  /\ \A i \in 1..2 : /\ OscLog2(c.rep, mw, Shifted(c.x, i, 1), c.s) - OscLog2(c.rep, mw, Shifted(c.x, i, -1), c.s) = 4 * OscGrad(c.rep, mw, c.x, c.s)[i]
                     /\ LET g == OscGrad(c.rep, mw, c.x, c.s)[i]
                            dg == OscGrad(c.rep, mw, Shifted(c.x, i, 1), c.s)[i] - g
                        IN OscLap(c.rep, mw, c.x, c.s)[i] = (g * g) + (IF c.rep = "Q" THEN dg ELSE mw * dg)
  /\ Exactly(c.rep, c.m, c.w, c.x, c.s) => OscE(c.rep, c.m, c.w, c.x, c.s) = OscEdef(c.rep, c.m, c.w, c.x, c.s)
  /\ OscE(c.rep, c.m, c.w, c.x, <<0, 0>>) = 0
CohOk == c.t = "coh" => LET a == Coherent(c.al, c.nf) nm == Len(c.al) IN
  \A k \in 1..Len(a) : LET d == Digits(k - 1, c.nf, nm) IN
    \A i \in 1..nm : d[i] < c.nf - 1 => a[k + Pow(c.nf, nm - i)] = CMul(c.al[i], a[k])
ZfsOk == c.t = "zfs" => LET z == ZFS3(c.D, c.E) IN z[1][1] + z[2][2] + z[3][3] = 0 /\ z[3][3] = 2 * c.D /\ z[1][1] - z[2][2] = 6 * c.E
GramOf(v) == Mul([i \in 1..3 |-> v[i]], [i \in 1..3 |-> [j \in 1..3 |-> v[j][i]]])
MinorRank(s) == IF Det([i \in 1..3 |-> [j \in 1..3 |-> <<s[i][j], 0>>]]) # CZ THEN 3
                ELSE IF \E i, j, k, l \in 1..3 : i < j /\ k < l /\ (s[i][k] * s[j][l]) # (s[i][l] * s[j][k]) THEN 2
                ELSE IF \E i, j \in 1..3 : s[i][j] # 0 THEN 1 ELSE 0
CholOk == c.t = "chol" => LET s == GramOf(c.v) IN Steps(s, 1) = MinorRank(s)
SignOk == c.t = "sign" => ExcSign(c.ref, c.tgt) = (IF Moves(c.ref, c.tgt) % 2 = 0 THEN 1 ELSE -1) /\ ExcSign(c.tgt, c.ref) = ExcSign(c.ref, c.tgt)
RECURSIVE PowApply(_, _, _)
PowApply(a, v, k) == IF k = 0 THEN v ELSE MMul(a, PowApply(a, v, k - 1))
Nilpotent(a) == MMul(a, a) = MScale(0, a)
ExpOk == c.t = "exp" =>
  /\ Taylor(c.a, c.v, 0, 0) = c.v
  /\ c.K > 0 => Taylor(c.a, c.v, 0, c.K) = MAdd(MScale(c.K, Taylor(c.a, c.v, 0, c.K - 1)), PowApply(c.a, c.v, c.K))
  /\ Taylor(c.a, MMul(c.a, c.v), 0, c.K) = MMul(c.a, Taylor(c.a, c.v, 0, c.K))
  /\ (Nilpotent(c.a) /\ c.K > 0) => Taylor(MScale(-1, c.a), Taylor(c.a, c.v, 0, c.K), 0, c.K) = MScale(Fact(c.K) * Fact(c.K), c.v)
UniOk == c.t = "uni" => LET t == UTrans(c.u, c.a) IN
  /\ Trace(t) = Trace(c.a) /\ Det(t) = Det(c.a) /\ UTrans(c.u, Adj(c.a)) = Adj(t) /\ UTrans(c.w, t) = UTrans(MMul(c.u, c.w), c.a) /\ UTrans(Adj(c.u), t) = c.a
BeOk == be = (IF hist = << >> THEN "float64" ELSE BackendStates("float64", hist)[Len(hist)])
Emit == (c.t \in {"osc", "coh", "zfs", "chol", "sign", "exp", "uni"} \/ Len(hist) = Depth) =>
          PrintT("CASE " \o ToJson(IF c.t = "none" THEN [t |-> "be", hist |-> hist] ELSE c))
===============================================================================
