-------------------------------- MODULE PopOps --------------------------------
(* What population control computes, as functions (no state).  See PopControl. *)
EXTENDS Arith, TLC
Total(x) == SumSeq(x)

(* ---------------- systematic (comb) resampling ----------------------------- *)
(* tooth i of N, displaced by u of K cells (cell midpoint): the first walker   *)
(* whose cumulative weight exceeds the tooth.                                  *)
Pick(x, i, u, k, n) ==
  CHOOSE j \in 1..n : /\ SumSeqTo(x, j) * 2 * k * n > (2 * k * i + 2 * u + 1) * Total(x)
                      /\ SumSeqTo(x, j - 1) * 2 * k * n <= (2 * k * i + 2 * u + 1) * Total(x)
Systematic(x, u, k) == [t \in 1..Len(x) |-> Pick(x, t - 1, u, k, Len(x))]
SystematicW(x) == [t \in 1..Len(x) |-> 2 * Total(x)]

(* ---------------- pair branching ------------------------------------------- *)
(* order: the slots in ascending weight                                        *)
Place(x, i) == 1 + Cardinality({j \in 1..Len(x) : x[j] < x[i] \/ (x[j] = x[i] /\ j < i)})
Order(x) == [t \in 1..Len(x) |-> CHOOSE i \in 1..Len(x) : Place(x, i) = t]
InWindow(x, unit) == \A i \in 1..Len(x) : 10 * x[i] >= unit /\ x[i] <= 2 * unit
(* number of pairs (a, n+1-a) that branch: the first pair inside the window    *)
(* stops the sweep                                                             *)
RECURSIVE NPairs(_, _, _, _)
NPairs(x, p, unit, a) ==
  LET n == Len(x) IN
  IF a >= n + 1 - a THEN a - 1
  ELSE IF 10 * x[p[a]] < unit \/ x[p[n + 1 - a]] > 2 * unit
       THEN NPairs(x, p, unit, a + 1) ELSE a - 1
(* large[a]: the pair's large walker is the one that survives                  *)
Branch(x, unit, large) ==
  LET n == Len(x)  p == Order(x)  m == NPairs(x, p, unit, 1)
  IN [t \in 1..n |->
        IF t <= m THEN IF large[t] THEN <<p[n+1-t], n * (x[p[t]] + x[p[n+1-t]])>>
                                   ELSE <<p[t],     n * (x[p[t]] + x[p[n+1-t]])>>
        ELSE IF t > n - m
             THEN LET a == n + 1 - t IN
                  IF large[a] THEN <<p[t], n * (x[p[a]] + x[p[t]])>>
                              ELSE <<p[a], n * (x[p[a]] + x[p[t]])>>
        ELSE <<p[t], 2 * n * x[p[t]]>>]

Carried(i, s, x) == LET F(t) == IF s[t] = i THEN x[t] ELSE 0 IN SumOver(F, 1, Len(s))
(* what a branching sweep may leave: pair t's whole weight goes to one of its  *)
(* two walkers (only to one of positive weight), the rest keep theirs          *)
BranchAllowed(x, unit, s, y) ==
  LET n == Len(x)  p == Order(x)  m == NPairs(x, p, unit, 1) IN
  /\ \A t \in 1..m :
       LET a == p[t]  b == p[n+1-t]  tot == 2 * n * (x[a] + x[b])
           ca == Carried(a, s, y)  cb == Carried(b, s, y)
       IN  (ca = 0 /\ cb = tot) \/ (ca = tot /\ cb = 0)
  /\ \A t \in (m+1)..(n-m) : Carried(p[t], s, y) = 2 * n * x[p[t]]
===============================================================================
