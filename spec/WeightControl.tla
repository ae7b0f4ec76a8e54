---------------------------- MODULE WeightControl ----------------------------
(* The ensemble weight between steps of a run: propagation changes the weights *)
(* arbitrarily; weight control caps them, and every Freq steps rescales the    *)
(* whole ensemble (over all ranks) back to its nominal weight N and then       *)
(* resamples.  Units of 1/S with S a multiple of 10^MaxStep.                   *)
EXTENDS WeightOps, FiniteSets
CONSTANTS N, Freqs, WVals, MaxStep, S, Ranks
VARIABLES w, org, total, wnum, step, freq, pc, ranks
\* w: current weights (1/S); after a control step the rescaled weights are wnum[i]/wden
vars == <<w, org, total, wnum, step, freq, pc, ranks>>
Init == /\ w = [i \in 1..N |-> S] /\ org = w /\ total = N * S /\ wnum = [n |-> w, d |-> 1]
        /\ step = -1 /\ freq \in Freqs /\ ranks \in Ranks /\ pc = "control"
Propagate == /\ pc = "control" /\ step < MaxStep /\ step' = step + 1 /\ pc' = "propagated"
             /\ w' \in [1..N -> {(x - 1) * S : x \in WVals}]
             /\ UNCHANGED <<org, total, wnum, freq, ranks>>
(* sum over ranks of the local sums *)
LocalSum(c, k) == LET lo == SumOver(LAMBDA q : Share(N, ranks, q), 0, k - 1)
                      F(i) == Abs(c[i]) IN SumOver(F, lo + 1, lo + Share(N, ranks, k))
GlobalSum(c) == SumOver(LAMBDA k : LocalSum(c, k), 0, ranks - 1)
Control ==
  /\ pc = "propagated" /\ pc' = "control"
  /\ LET c == Capped(w, step, total) IN
     IF Due(step, freq) /\ GlobalSum(c) > 0
     THEN /\ total' = GlobalSum(c) /\ org' = c /\ w' = c
          /\ wnum' = [n |-> [i \in 1..N |-> c[i] * N], d |-> GlobalSum(c)]
     ELSE w' = c /\ wnum' = [n |-> c, d |-> S] /\ UNCHANGED <<org, total>>
  /\ UNCHANGED <<step, freq, ranks>>
Next == Propagate \/ Control
Spec == Init /\ [][Next]_vars
(* ---- properties ---- *)
AfterDue == pc = "control" /\ step >= 0 /\ Due(step, freq)
Normalised == (AfterDue /\ SumAbs(w) > 0) =>
                 LET F(i) == Abs(wnum.n[i]) IN SumOver(F, 1, N) = N * wnum.d
RawRecorded == (AfterDue /\ SumAbs(w) > 0) => total = SumAbs(org)
RankFree    == pc = "propagated" => GlobalSum(w) = SumAbs(w)
CapHolds    == (pc = "control" /\ step > 0 /\ ~Due(step, freq)) => \A i \in 1..N : Abs(w[i]) <= total \div 10
Partition   == SumOver(LAMBDA k : Share(N, ranks, k), 0, ranks - 1) = N
===============================================================================
