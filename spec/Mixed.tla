--------------------------------- MODULE Mixed ---------------------------------
(* The Green's-function route of the implementation gives the determinant       *)
(* definition: for every pair of small integer determinants and every operator  *)
(* in a basis of operators.  Also: estimators do not change when the walker is  *)
(* rescaled or its orbitals are mixed (orthonormalisation), nor when trial,     *)
(* walker and operator are written in another basis.                            *)
EXTENDS MixedOps
CONSTANTS NAO, NO, Ents, Mixes
VARIABLES psi, phi, o, done
vars == <<psi, phi, o, done>>
Cplx(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> <<m[i][j], 0>>]]
Mats(r, c) == {Cplx(m) : m \in [1..r -> [1..c -> Ents]]}
Sym == {m \in Mats(NAO, NAO) : \A i, j \in 1..NAO : m[i][j] = m[j][i]}
Ops == {Cplx([i \in 1..NAO |-> [j \in 1..NAO |-> IF {i, j} = {p, q} THEN 1 ELSE 0]]) : p, q \in 1..NAO}
         \cup {Cplx([i \in 1..NAO |-> [j \in 1..NAO |-> i + j - 1]])}
Ops1 == CHOOSE x \in Ops : TRUE
Init == /\ psi \in {m \in Mats(NAO, NO) : m[1][1] = C1 /\ \A j \in 2..NO : m[1][j] = CZ}
        /\ phi = psi /\ o = Ops1 /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED psi /\ phi' \in Mats(NAO, NO) /\ o' \in Ops
Singular == Overlap(psi, phi) = CZ
Spec == Init /\ [][Next]_vars
(* adjugate: s^{-1} det(s)                                                      *)
Cof(s, i, j) == LET n == Len(s)
                    m == [a \in 1..(n-1) |-> [b \in 1..(n-1) |-> s[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]]
                IN CScale(IF (i + j) % 2 = 0 THEN 1 ELSE -1, Det(m))
Adj(s) == [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> Cof(s, j, i)]]
(* theta = phi s^{-1} (times det); G_pq = <a+_p a_q> = sum_i psi*_pi theta_qi   *)
Theta == MMul(phi, TLCEval(Adj(Ovl(psi, phi))))
TrOf(m) == CSumOver(LAMBDA i : m[i][i], 1, Len(m))
LG == AdjMul(psi, MMul(o, Theta))                 \* times det
Wick1 == One(psi, o, phi) = TrOf(LG)
Wick2 == CMul(Two(psi, o, phi), Overlap(psi, phi)) = CSub(CMul(TrOf(LG), TrOf(LG)), TrOf(MMul(LG, LG)))
(* invariance under column mixing by an integer matrix x: values scale with it  *)
MixSet == {[i \in 1..NO |-> [j \in 1..NO |-> IF i = j THEN <<1 + i, 0>> ELSE IF i < j THEN <<k, 0>> ELSE CZ]] : k \in Mixes}
            \cup {[i \in 1..NO |-> [j \in 1..NO |-> IF i + j = NO + 1 THEN <<k, 1>> ELSE CZ]] : k \in Mixes}
ColMix == \A x \in MixSet :
            LET ph == MMul(phi, x)  d == Det(x) IN
              /\ Overlap(psi, ph) = CMul(Overlap(psi, phi), d)
              /\ One(psi, o, ph) = CMul(One(psi, o, phi), d)
              /\ Two(psi, o, ph) = CMul(Two(psi, o, phi), d)
(* a permutation of the basis                                                   *)
Rot(m) == [i \in 1..NAO |-> m[(i % NAO) + 1]]
RotOp(m) == [i \in 1..NAO |-> [j \in 1..NAO |-> m[(i % NAO) + 1][(j % NAO) + 1]]]
Basis == /\ One(Rot(psi), RotOp(o), Rot(phi)) = One(psi, o, phi)
         /\ Two(Rot(psi), RotOp(o), Rot(phi)) = Two(psi, o, phi)
===============================================================================
