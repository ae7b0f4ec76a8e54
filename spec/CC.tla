---------------------------------- MODULE CC ----------------------------------
(* Switches parts of Hamiltonian and cluster operator on, in fixed small systems: *)
(* what the equations must satisfy whatever is on.       *)
EXTENDS CCOps, Json
CONSTANTS Sizes, Limit
VARIABLES size, on
All == {"f", "i", "g", "t1", "t2", "s", "u1", "u2"}
Shape(k) == CASE k = 1 -> [no |-> 2, nv |-> 2, nm |-> 1, nf1 |-> 1, nf2 |-> 1] [] k = 2 -> [no |-> 2, nv |-> 2, nm |-> 2, nf1 |-> 1, nf2 |-> 1]
              [] k = 3 -> [no |-> 2, nv |-> 2, nm |-> 1, nf1 |-> 2, nf2 |-> 2] [] k = 4 -> [no |-> 3, nv |-> 2, nm |-> 1, nf1 |-> 2, nf2 |-> 1]
              [] k = 5 -> [no |-> 2, nv |-> 3, nm |-> 1, nf1 |-> 1, nf2 |-> 2] [] k = 6 -> [no |-> 3, nv |-> 3, nm |-> 1, nf1 |-> 1, nf2 |-> 1]
              [] OTHER -> [no |-> 2, nv |-> 2, nm |-> 2, nf1 |-> 2, nf2 |-> 1]
Hash(n) == ((((n * 37) + 11) % 17) % 5) - 2
If(c, x) == IF c THEN x ELSE 0
Sort2(p, q, k) == IF p < q THEN Hash((p * 7) + q + k) ELSE Hash((q * 7) + p + k)
AntiOf(V(_, _, _, _), p, q, r, s) == V(p, q, r, s) - V(q, p, r, s) - V(p, q, s, r) + V(q, p, s, r)
Sys(k, w) == One({LET n == z.no + z.nv
                 V(p, q, r, s) == Hash((p * 3) + (q * 5) + (r * 3) + (s * 5) + (p * r) + (q * s))
                 U(a, b, i, j) == Hash((a * 3) + (b * 11) + (i * 5) + (j * 7))
                 T2(x) == TLCEval([a \in 1..z.nv |-> [b \in 1..z.nv |-> [i \in 1..z.no |-> [j \in 1..z.no |->
                              If(x \in w, AntiOf(U, a, b, i, j))]]]])
                 S1(c, x) == TLCEval([a \in 1..z.nv |-> [i \in 1..z.no |-> If(x \in w, Hash((a * 5) + (i * 3) + c))]])
     IN TLCEval([no |-> z.no, nv |-> z.nv, nm |-> z.nm, nf1 |-> z.nf1, nf2 |-> z.nf2,
         f |-> TLCEval([p \in 1..n |-> [q \in 1..n |-> If("f" \in w, Sort2(p, q, 0))]]),
         i |-> TLCEval([p \in 1..n |-> [q \in 1..n |-> [r \in 1..n |-> [s \in 1..n |-> If("i" \in w, AntiOf(V, p, q, r, s))]]]]),
         g |-> [m \in 1..z.nm |-> [p \in 1..n |-> [q \in 1..n |-> If("g" \in w, Sort2(p, q, m))]]],
         w |-> [m \in 1..z.nm |-> m + 1],
         t1 |-> S1(1, "t1"), t2 |-> T2("t2"),
         s |-> [c \in 1..z.nf1 |-> IF c = 1 THEN [m \in 1..z.nm |-> If("s" \in w, 2 * m - 1)] ELSE [m \in 1..z.nm |-> [l \in 1..z.nm |-> If("s" \in w, m + l - 4)]]],
         u1 |-> [c \in 1..z.nf2 |-> IF c = 1 THEN [m \in 1..z.nm |-> S1(m + 1, "u1")] ELSE [m \in 1..z.nm |-> [l \in 1..z.nm |-> S1(m + l + 5, "u1")]]],
         u2 |-> [c \in 1..z.nf2 |-> IF c = 1 THEN [m \in 1..z.nm |-> T2("u2")] ELSE [m \in 1..z.nm |-> [l \in 1..z.nm |-> T2("u2")]]]]) : z \in {Shape(k)}})
Init == size \in Sizes /\ on = {}
Next == /\ on = {}
        /\ \E x \in SUBSET All : on' = x /\ (Cardinality(x) <= Limit \/ Cardinality(x) >= Cardinality(All) - Limit)
        /\ size' = size
Spec == Init /\ [][Next]_<<size, on>>
Y == Sys(size, on)
Emit == on # {} => PrintT("CASE " \o ToJson([shape |-> Shape(size), on |-> on]))
(* one evaluation for all clauses                                                *)
Sound == \A y \in {Y} : \A ms \in {Amps(y)} : \A psi \in {ExpAll(y, ms, Vac(y))} : \A r \in {ExpAll(y, Neg(ms), ApplyH(y, psi))} :
   /\ Bounded(y)
   /\ ExpAll(y, Neg(ms), psi) = Vac(y)                                        \* e^-T e^T = 1
   /\ r[Ref(y)][NoPh(y)] = Energy(y)                                          \* the energy formula
   /\ \A a \in Vi(y), b \in Vi(y), i \in Oc(y), j \in Oc(y) : R2(y, r, <<a, b, i, j>>, NoPh(y)) = -R2(y, r, <<b, a, i, j>>, NoPh(y))
   /\ on \cap {"t1", "t2", "s", "u1", "u2"} = {} =>                           \* no cluster: the Hamiltonian itself
         /\ \A a \in Vi(y), i \in Oc(y) : Singles(y, r, NoPh(y))[a][i] = y.f[y.no + a][i] /\ \A m \in 1..y.nm : Singles(y, r, Ph1(y, m))[a][i] = y.g[m][y.no + a][i]
         /\ \A z \in Doubles(y) : R2(y, r, z, NoPh(y)) = y.i[y.no + z[1]][y.no + z[2]][z[3]][z[4]] /\ \A m \in 1..y.nm : R2(y, r, z, Ph1(y, m)) = 0
   /\ on \cap {"g", "u1", "u2"} = {} =>                                       \* decoupled photons: a displaced oscillator
         /\ \A m \in 1..y.nm : r[Ref(y)][Ph1(y, m)] = (IF y.nf1 > 0 THEN y.w[m] * y.s[1][m] ELSE 0)
         /\ y.nf1 > 1 => \A m, l \in 1..y.nm : r[Ref(y)][Ph2(y, m, l)] = (y.w[m] + y.w[l]) * y.s[2][m][l]
         /\ \A z \in Doubles(y), m \in 1..y.nm : R2(y, r, z, Ph1(y, m)) = 0
===============================================================================
