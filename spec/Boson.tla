-------------------------------- MODULE Boson --------------------------------
(* A displaced mode as a transition system: the state holds the vector of       *)
(* displacement matrix elements of row m of a mode at displacement f, obtained  *)
(* one column at a time with the ladder recursion                               *)
(*    sqrt(m+1) <m+1|D|n> = sqrt(n) <m|D|n-1> - f <m|D|n>                       *)
(* and is compared with the closed form the code is judged against; the packed  *)
(* triangle is filled position by position.                                     *)
EXTENDS BosonOps
CONSTANTS MaxN, Steps
VARIABLES f, m, row, pos, seen
vars == <<f, m, row, pos, seen>>
Closed(a, b, x) == IF a >= b THEN DElem(a, b, x) ELSE (IF (b - a) % 2 = 0 THEN 1 ELSE -1) * DElem(b, a, x)
Init == /\ f \in {(k - (Steps \div 2)) * 2000 : k \in 0..Steps}
        /\ m = 0 /\ row = [n \in 0..MaxN |-> Closed(0, n, f)] /\ pos = 0 /\ seen = {}
Up == /\ m < MaxN
      /\ m' = m + 1
      /\ row' = [n \in 0..MaxN |-> FDiv((IF n = 0 THEN 0 ELSE FMul(FSqrt(n * S), row[n - 1])) - FMul(f, row[n]), FSqrt((m + 1) * S))]
      /\ seen' = seen \cup {PackPos(m, j) : j \in 0..m}
      /\ pos' = pos + m + 1
      /\ UNCHANGED f
Next == Up
Spec == Init /\ [][Next]_vars
(* the ladder recursion and the closed form agree                               *)
Ladder == \A n \in 0..MaxN : Abs(row[n] - Closed(m, n, f)) <= 60 * (m + 1)
(* at zero displacement D is the identity                                       *)
Identity == f = 0 => \A n \in 0..MaxN : row[n] = IF n = m THEN S ELSE 0
(* the triangle is filled without gaps or repetition, and symmetrically          *)
Packed == seen = 0..(pos - 1) /\ \A i, j \in 0..MaxN : PackPos(i, j) = PackPos(j, i)
(* derivative: central difference of the closed form                             *)
Deriv == \A n \in 0..m : LET h == 200
              g(x) == FMul(Gauss(x), DElem(m, n, x))
          IN Abs(RDiv((g(f + h) - g(f - h)) * 25, 1) - FMul(Gauss(f), DDElem(m, n, f))) <= 900 + 100 * m
===============================================================================
