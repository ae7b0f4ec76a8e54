--------------------------------- MODULE Lat ---------------------------------
(* All small chains, interactions and integer orbitals: the hopping matrix is   *)
(* symmetric with the right bonds, integrals are antisymmetric, the reference   *)
(* energy rebuilt from Fock matrix and integrals is the mean-field energy, the  *)
(* energy of the exact determinant agrees, and the phonon shift is the minimum  *)
(* over displacements.                                                          *)
EXTENDS LatOps, Json
CONSTANTS Ls, Us, CVals
VARIABLES y
None == [l |-> 0]
Init == y = None
Coeff(l) == [1..l -> [1..l -> {v - 1 : v \in CVals}]]
Diag(l, k, v) == [i \in 1..l |-> [j \in 1..l |-> IF i = j /\ i = k THEN v ELSE 0]]
Pick == y = None /\ \E l \in Ls, u \in Us, ring \in BOOLEAN, na, nb \in 0..2 : na <= l /\ nb <= l /\ na + nb > 0 /\
           y' = [l |-> 0, ll |-> l, u |-> u, ring |-> ring, na |-> na, nb |-> nb]
Fill == y # None /\ y.l = 0 /\ \E c \in Coeff(y.ll) : LET l == y.ll IN
           y' = [l |-> l, u |-> y.u, ring |-> y.ring, two |-> 2, ca |-> c, cb |-> [i \in 1..l |-> [j \in 1..l |-> c[l + 1 - i][j] + (IF i = j THEN 1 ELSE 0)]],
                 na |-> y.na, nb |-> y.nb, g |-> [m \in 1..l |-> Diag(l, m, 2)], w |-> 3, shift |-> TRUE]
Next == Pick \/ Fill
Spec == Init /\ [][Next]_y
Bonds == y.l > 0 => \A i, j \in 1..y.l : Hop(y)[i][j] = Hop(y)[j][i] /\ Hop(y)[i][i] = 0
                    /\ -Sum(LAMBDA k : Hop(y)[i][k], y.l) = (IF y.ring THEN 2 ELSE IF i \in {1, y.l} THEN 1 ELSE 2)
Anti == y.l > 0 => \A k \in {1, 2 * y.l}, l, m, n \in 1..(2 * y.l) : RepA(y, k, l, m, n) = -RepA(y, l, k, m, n) /\ RepA(y, k, l, m, n) = RepA(y, m, n, k, l)
                    /\ (Spin(y.l, k) = Spin(y.l, l) => RepA(y, k, l, m, n) = 0)
Reference == y.l > 0 => RefE(y) = 2 * HubE(y)
(* E(x) = E - 2 sum x_m G_m + w sum x_m^2 is lowest at x = G/w, where it is the reported energy *)
PhononMin == y.l > 0 => \A m \in 1..y.l : \A x \in -3..3 :
   ((y.w * y.w) * (x * x)) - ((2 * y.w) * (x * Disp(y, m))) >= -(Disp(y, m) * Disp(y, m))
===============================================================================
