-------------------------- MODULE WeightControlTrace --------------------------
(* Judges histories of weight-control calls of the real walkers, on any number *)
(* of ranks.  All numbers in units of 1/S, rounded; Tol absorbs the rounding.  *)
EXTENDS WeightOps, JudgeSeq
S == 10000
Near(a, b, t) == a # NOTINT /\ Abs(a - b) <= t
First(n, r, q) == 1 + (LET F(k) == Share(n, r, k - 1) IN SumOver(F, 1, q - 1))
Mine(n, r, q) == First(n, r, q)..(First(n, r, q) + Share(n, r, q - 1) - 1)
WStart(run) == [total |-> run.init.n * S, org |-> <<>>]
(* event: step, freq, method, win, wout (global order), total, org, scaled[i]= *)
(* wout[i]*total, sumscaled = sum|wout|*total, localin/localout per rank       *)
WStep(run, s, e) ==
  LET n == run.init.n
      due == Due(e.step, e.freq)
      c == Capped(e.win, e.step, s.total)
      tw == SumAbs(c)
      ok == \A q \in 1..Len(e.outcome) : e.outcome[q] = "ok"
      resamples == due /\ e.method \in {"reconfiguration", "comb", "branching"}
      ranks == run.init.ranks
      bad ==
        IF ~ok THEN {"weight control completes on every rank"}
        ELSE IF Len(e.wout) # n THEN {"number of walkers preserved"}
        ELSE IF ~due THEN
          (IF \E i \in 1..n : ~Near(e.wout[i], c[i], 2)
           THEN {"between control steps weights change only by the cap"} ELSE {})
          \cup (IF \E q \in 1..Len(e.total) : ~Near(e.total[q], s.total, 2)
                THEN {"recorded total changes only at control steps"} ELSE {})
          \cup (IF \E q \in 1..Len(e.moved) : e.moved[q] THEN {"walkers keep their place between control steps"} ELSE {})
        ELSE
          (IF \E q \in 1..Len(e.total) : ~Near(e.total[q], tw, n + 2)
           THEN {"recorded total is the ensemble weight over all ranks"} ELSE {})
          \cup (IF \E i \in 1..n : ~Near(e.org[i], c[i], 2)
                THEN {"raw weights are recorded before rescaling"} ELSE {})
          \cup (IF ~Near(e.sumout, n * S, n + 2)
                THEN {"rescaled ensemble weight equals the number of walkers"} ELSE {})
          \cup (IF ~resamples /\ \E i \in 1..n : ~Near(e.scaled[i], n * c[i], 4 * n)
                THEN {"rescaling keeps relative weights"} ELSE {})
          \cup (IF resamples /\ \E q \in 1..Len(e.localscaled) : ~Near(e.localscaled[q], n * e.localcap[q], 8 * n)
                THEN {"resampling keeps each rank's share of the weight"} ELSE {})
          \cup (IF ~resamples /\ \E q \in 1..Len(e.moved) : e.moved[q] THEN {"no resampling unless requested"} ELSE {})
          \cup (IF \E q \in 1..Len(e.copies) : ~e.copies[q]
                THEN {"every walker after resampling is a copy of one of its rank's walkers"} ELSE {})
          \cup (IF e.method \in {"reconfiguration", "comb"}
                   /\ \E q \in 1..ranks : \E i \in Mine(n, ranks, q) : ~Near(e.wout[i], e.wout[First(n, ranks, q)], 2)
                THEN {"reconfiguration leaves equal weights on each rank"} ELSE {})
          \cup (IF e.method = "branching"
                   /\ \E q \in 1..ranks :
                        /\ Cardinality(Mine(n, ranks, q)) > 1
                        /\ \E i \in Mine(n, ranks, q) : \/ 10 * n * (Abs(c[i]) + 2) < tw - n
                                                       \/ n * (Abs(c[i]) - 2) > 2 * (tw + n)
                        /\ ~e.moved[q]
                THEN {"branching acts on a rank whose weights left the window"} ELSE {})
  IN [st |-> IF due THEN [total |-> e.total[1], org |-> c] ELSE s, bad |-> bad]
===============================================================================
