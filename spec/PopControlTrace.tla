--------------------------- MODULE PopControlTrace ---------------------------
(* Judges recorded resampling calls of the real population control.            *)
(* e.win: weights before (units 1/Unit); e.wout: after (units 1/(2 N Unit));   *)
(* e.parts: for each kind of per-walker data, the walker each slot was copied  *)
(* from (0: not a copy of any walker).                                         *)
EXTENDS PopOps, Judge
Src(e)    == e.parts[1]
IsSys(e)  == e.method \in {"reconfiguration", "comb"}
IsBr(e)   == e.method = "branching"
IsOff(e)  == e.method = "off"
Shape(e)  == /\ e.outcome = "ok"
             /\ Len(e.wout) = e.n /\ \A k \in 1..Len(e.parts) : Len(e.parts[k]) = e.n
ResFailing(e) ==
  IF e.outcome # "ok" THEN {"resampling completes"}
  ELSE IF ~Shape(e) THEN {"number of walkers preserved"}
  ELSE
   (IF NOTINT \in Range(e.wout) THEN {"weights exact"}
    ELSE (IF SumSeq(e.wout) # 2 * e.n * SumSeq(e.win) THEN {"total weight preserved"} ELSE {})
      \cup (IF \E t \in 1..e.n : e.wout[t] < 0 THEN {"weights stay non-negative"} ELSE {})
      \cup (IF IsSys(e) /\ \E t \in 1..e.n : e.wout[t] # 2 * SumSeq(e.win)
            THEN {"systematic resampling equalises weights"} ELSE {}))
   \cup (IF \E k \in 1..Len(e.parts) : \E t \in 1..e.n : e.parts[k][t] \notin 1..e.n
         THEN {"every survivor is an exact copy of a walker"} 
         ELSE (IF \E k \in 2..Len(e.parts) : e.parts[k] # e.parts[1]
               THEN {"all data of a walker move together"} ELSE {})
           \cup (IF \E t \in 1..e.n : e.wout[t] > 0 /\ e.win[Src(e)[t]] = 0
                 THEN {"no weight on copies of dead walkers"} ELSE {})
           \cup (IF IsSys(e) /\ \E i \in 1..e.n :
                      LET c == Count(Src(e), i) IN
                        (* a tooth within rounding of a boundary may fall on either side *)
                        \/ c < (e.n * e.win[i]) \div SumSeq(e.win) - (IF e.edge THEN 1 ELSE 0)
                        \/ c > CeilDiv(e.n * e.win[i], SumSeq(e.win)) + (IF e.edge /\ e.win[i] > 0 THEN 1 ELSE 0)
                 THEN {"copies are floor or ceiling of N w / W"} ELSE {})
           \cup (IF (IsOff(e) \/ (IsBr(e) /\ InWindow(e.win, e.unit))) /\
                     \E i \in 1..e.n : \/ Count(Src(e), i) # 1
                                       \/ \E t \in 1..e.n : Src(e)[t] = i /\ e.wout[t] # 2 * e.n * e.win[i]
                 THEN {"untouched when no control is due"} ELSE {})
           \cup (IF IsBr(e) /\ ~e.ties /\ ~BranchAllowed(e.win, e.unit, Src(e), e.wout)
                 THEN {"branching pairs lightest with heaviest"} ELSE {}))
   \cup (IF e.aliased THEN {"copies are independent"} ELSE {})
   \cup (IF e.inputs_changed THEN {"other inputs untouched"} ELSE {})

(* quadrature events: e.carried[i] = sum over e.k scripted draws of the weight *)
(* carried by copies of walker i (units 1/(2 N Unit)); e.spread its tolerance  *)
QuadFailing(e) ==
  IF e.outcome # "ok" THEN {"resampling completes"}
  ELSE UNION {IF e.carried[i] = NOTINT \/ Abs(e.carried[i] - e.k * 2 * e.n * e.win[i]) > e.spread[i]
              THEN {"expected weight of a walker's copies equals its weight"} ELSE {} : i \in 1..e.n}
  \cup (IF e.distinct < e.mindistinct THEN {"the outcome depends on the draw"} ELSE {})
PopFailing(e) == IF e.kind = "quad" THEN QuadFailing(e) ELSE ResFailing(e)
===============================================================================
