-------------------------------- MODULE Driver --------------------------------
(* The AFQMC driver: initial orthonormalisation, then per step                  *)
(*   orthonormalise (every renorm steps) - propagate with the current shift -   *)
(*   weight control (every pop steps) - accumulate - measure (every calc steps).*)
EXTENDS DriverOps
CONSTANTS NSteps, Freqs, Hs, Ws
VARIABLES renorm, pop, calc, step, phase, stale, total, buf, hist, shift, meas
vars == <<renorm, pop, calc, step, phase, stale, total, buf, hist, shift, meas>>
(* stale: propagations since the walkers were last orthonormal; total: drift of *)
(* the ensemble weight since it was last rescaled; buf/hist: window             *)
Init == /\ renorm \in Freqs /\ pop \in Freqs /\ calc \in Freqs
        /\ step = 0 /\ phase = "ortho" /\ stale = 0 /\ total = 0 /\ buf = <<0, 0>> /\ hist = <<>>
        /\ shift = <<0, 1>> /\ meas = <<>>
Ortho == /\ phase = "ortho" /\ step < NSteps
         /\ stale' = IF Every(step, renorm) THEN 0 ELSE stale
         /\ phase' = "prop" /\ UNCHANGED <<renorm, pop, calc, step, total, buf, hist, shift, meas>>
Propagate == /\ phase = "prop" /\ stale' = stale + 1
             /\ \E h \in Hs, w \in Ws :
                  /\ hist' = Append(hist, <<w, h * w>>)
             /\ total' = total + 1
             /\ phase' = "ctrl" /\ UNCHANGED <<renorm, pop, calc, step, buf, shift, meas>>
Control == /\ phase = "ctrl" /\ total' = IF Every(step, pop) THEN 0 ELSE total
           /\ phase' = "acc" /\ UNCHANGED <<renorm, pop, calc, step, stale, buf, hist, shift, meas>>
Accumulate == /\ phase = "acc"
              /\ LET b == <<buf[1] + hist[Len(hist)][1], buf[2] + hist[Len(hist)][2]>> IN
                   IF Every(step, calc)
                   THEN /\ shift' = <<b[2], b[1]>> /\ buf' = <<0, 0>> /\ phase' = "meas"
                   ELSE /\ buf' = b /\ UNCHANGED shift /\ phase' = "next"
              /\ UNCHANGED <<renorm, pop, calc, step, stale, total, hist, meas>>
Measure == /\ phase = "meas" /\ meas' = Append(meas, step) /\ phase' = "next"
           /\ UNCHANGED <<renorm, pop, calc, step, stale, total, buf, hist, shift>>
NextStep == /\ phase = "next" /\ step' = step + 1 /\ phase' = "ortho"
            /\ UNCHANGED <<renorm, pop, calc, stale, total, buf, hist, shift, meas>>
Next == Ortho \/ Propagate \/ Control \/ Accumulate \/ Measure \/ NextStep
Spec == Init /\ [][Next]_vars
(* properties *)
Bounded   == stale <= renorm /\ total <= pop
FreshRule == (phase = "prop" /\ FreshAt(step, renorm)) => stale = 0
MeasRule  == phase = "ortho" => Range(meas) = {k \in Measured(NSteps, calc) : k < step}
CountRule == step = NSteps => Len(meas) = NMeas(NSteps, calc)
ShiftRule == (phase = "meas") =>
               LET ws == SubSeq(hist, Len(hist) - calc + 1, Len(hist))
               IN shift[1] = WindowE(ws) /\ shift[2] = WindowW(ws)
===============================================================================
