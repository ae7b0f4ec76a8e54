------------------------------ MODULE PopControl ------------------------------
(* Walker population control.                                                  *)
(* A population is a sequence of N walkers; walker i carries an integer weight *)
(* w[i] (in units of 1/Unit).  Resampling replaces the population by N copies  *)
(* of existing walkers with new weights.  Weights after resampling are kept in *)
(* units of 1/(2*N*Unit), in which both families of methods are exact.         *)
EXTENDS PopOps, Json
CONSTANTS N,      \* walkers
          WMax,   \* largest weight in the exhaustive model
          Unit,   \* weight 1.0 = Unit
          K       \* draws per tooth / per pair in the exhaustive model
VARIABLES w,      \* weights before
          src,    \* src[k]: which walker slot k is a copy of
          nw,     \* weights after, in units 1/(2 N Unit)
          method, phase

vars == <<w, src, nw, method, phase>>

(* ---------------- transitions ----------------------------------------------- *)
Init == /\ w \in [1..N -> 0..WMax] /\ Total(w) > 0
        /\ src = [i \in 1..N |-> i] /\ nw = [i \in 1..N |-> 2 * N * w[i]]
        /\ method = "none" /\ phase = "weighted"

DoSystematic == /\ phase = "weighted" /\ phase' = "done" /\ method' = "systematic"
                /\ \E u \in 0..(K - 1) : src' = Systematic(w, u, K)
                /\ nw' = SystematicW(w) /\ UNCHANGED w

(* the large walker survives with probability w_large/(w_small+w_large): every *)
(* outcome of positive probability is a transition                             *)
DoBranch ==
  /\ phase = "weighted" /\ phase' = "done" /\ method' = "branching"
  /\ LET p == Order(w)  m == NPairs(w, p, Unit, 1) IN
     \E large \in [1..N -> BOOLEAN] :
        /\ \A t \in 1..N : t > m => large[t] = FALSE
        /\ \A t \in 1..m : (IF large[t] THEN w[p[N+1-t]] ELSE w[p[t]]) > 0 \/ w[p[t]] + w[p[N+1-t]] = 0
        /\ LET r == Branch(w, Unit, large) IN
             src' = [t \in 1..N |-> r[t][1]] /\ nw' = [t \in 1..N |-> r[t][2]]
  /\ UNCHANGED w

DoNothing == /\ phase = "weighted" /\ phase' = "done" /\ method' = "off"
             /\ UNCHANGED <<w, src, nw>>

Next == DoSystematic \/ DoBranch \/ DoNothing
Spec == Init /\ [][Next]_vars

(* ---------------- what a user relies on -------------------------------------- *)
CountKept  == DOMAIN src = 1..N /\ DOMAIN nw = 1..N
WeightKept == SumSeq(nw) = 2 * N * Total(w)
OnlyCopies == \A t \in 1..N : src[t] \in 1..N
NoGhost    == \A t \in 1..N : nw[t] > 0 => w[src[t]] > 0
FairCopies == (phase = "done" /\ method = "systematic") =>
                 \A i \in 1..N : LET c == Count(src, i) IN
                    c >= (N * w[i]) \div Total(w) /\ c <= CeilDiv(N * w[i], Total(w))
KeptWindow == (phase = "done" /\ method = "branching" /\ InWindow(w, Unit)) =>
                 \A i \in 1..N : Count(src, i) = 1 /\ \A t \in 1..N : src[t] = i => nw[t] = 2 * N * w[i]

BranchOk == (phase = "done" /\ method = "branching") => BranchAllowed(w, Unit, src, nw)

(* unbiasedness, by exact quadrature: with Total(w) cells per tooth every      *)
(* threshold falls on a cell boundary                                          *)
UnbiasedSystematic ==
  phase = "weighted" =>
    LET k == Total(w)
        S == [u \in 0..(k-1) |-> Systematic(w, u, k)]
    IN \A i \in 1..N :
         LET G(u) == Carried(i, S[u], SystematicW(w)) IN SumOver(G, 0, k - 1) = k * 2 * N * w[i]
UnbiasedBranching ==
  phase = "weighted" =>
    LET p == Order(w)  m == NPairs(w, p, Unit, 1) IN
    \A t \in 1..m :
       LET a == p[t]  b == p[N+1-t]  s == w[a] + w[b]
           L == Branch(w, Unit, [x \in 1..N |-> TRUE])
           R == Branch(w, Unit, [x \in 1..N |-> FALSE])
           LS == [x \in 1..N |-> L[x][1]]  LW == [x \in 1..N |-> L[x][2]]
           RS == [x \in 1..N |-> R[x][1]]  RW == [x \in 1..N |-> R[x][2]]
       IN  /\ w[b] * Carried(a, LS, LW) + w[a] * Carried(a, RS, RW) = s * 2 * N * w[a]
           /\ w[b] * Carried(b, LS, LW) + w[a] * Carried(b, RS, RW) = s * 2 * N * w[b]
(* hands every weight vector of the model to the conformance driver            *)
Emit == phase = "weighted" => PrintT("CASE " \o ToJson([w |-> w, unit |-> Unit]))
===============================================================================
