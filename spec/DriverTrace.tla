----------------------------- MODULE DriverTrace -----------------------------
(* Judges runs of the real driver around a scripted propagator.                 *)
(* init: nsteps renorm pop calc method dt n trial walker; events: "prop" (step  *)
(* k's propagation), "energy" (a measurement), "end".                           *)
EXTENDS DriverOps, JudgeSeq
S == 10000
Near(a, b, t) == a # NOTINT /\ Abs(a - b) <= t
DStart(run) == [step |-> 0, win |-> <<>>, shift |-> <<0, 1>>, w |-> [i \in 1..run.init.n |-> 2],
                scale |-> 0, due |-> FALSE, uniform |-> FALSE, meas |-> <<>>]
ShiftIs(x, sh) == Near(x * sh[2], S * sh[1], 2 * Abs(sh[2]) + 2)
Pair(e) == <<SumSeq(e.wset), SumOver(LAMBDA i : e.wset[i] * e.hset[i], 1, Len(e.wset))>>
(* weights (units 1/2) after the control of a step whose propagation set wset   *)
After(run, k, wset) ==
  IF Every(k, run.init.pop) /\ run.init.method \in {"comb", "reconfiguration"}
  THEN [i \in 1..Len(wset) |-> 2] ELSE wset
DStep(run, st, e) ==
  LET i0 == run.init  k == st.step IN
  CASE e.kind = "prop" ->
        LET bad ==
             (IF k >= i0.nsteps THEN {"the run takes total_time/dt steps"} ELSE {})
             \cup (IF e.fresh # FreshAt(k, i0.renorm) THEN {"walkers are orthonormalised every renorm_freq steps"} ELSE {})
             \cup (IF ~ShiftIs(e.eshift, st.shift) THEN {"each step is propagated with the current energy shift"} ELSE {})
             \cup (IF Len(e.win) # i0.n THEN {"number of walkers preserved"}
                   ELSE IF \E i \in 1..i0.n : e.win[i] # (S * st.w[i]) \div 2
                        THEN {"weight control happens every pop_control_freq steps with the chosen method"} ELSE {})
             \cup (IF ~e.objects THEN {"propagation acts on the run's walkers and trial"} ELSE {})
             \cup (IF st.due THEN {"a measurement is taken every property_calc_freq steps"} ELSE {})
            after == After(run, k, e.wset)
            hsum == SumOver(LAMBDA i : after[i] * e.hset[i], 1, Len(after))
            win  == Append(st.win, <<SumSeq(after), hsum>>)
            m    == Every(k, i0.calc)
        IN [st |-> [st EXCEPT !.step = k + 1, !.w = after,
                              !.shift = IF m THEN <<WindowE(win), WindowW(win)>> ELSE st.shift,
                              !.win = IF m THEN <<>> ELSE win, !.due = m],
            bad |-> bad]
    [] e.kind = "energy" ->
        LET bad == (IF ~st.due THEN {"measurements only every property_calc_freq steps"} ELSE {})
             \cup (IF \E i \in 1..Len(e.win) : e.win[i] # (S * st.w[i]) \div 2
                   THEN {"energies are measured after weight control"} ELSE {})
             \cup (IF ~ShiftIs(e.eshift, st.shift)
                   THEN {"the energy shift is the weighted mean hybrid energy of the window"} ELSE {})
        IN [st |-> [st EXCEPT !.due = FALSE, !.meas = Append(@, <<k - 1, e.num, e.den>>)], bad |-> bad]
    [] e.kind = "end" ->
        LET bad == (IF k # i0.nsteps THEN {"the run takes total_time/dt steps"} ELSE {})
             \cup (IF st.due THEN {"a measurement is taken every property_calc_freq steps"} ELSE {})
             \cup (IF Len(e.times) # Len(st.meas) \/ Len(e.energies) # Len(st.meas)
                   THEN {"every measurement is reported once"}
                   ELSE (IF \E j \in 1..Len(st.meas) : e.times[j] # st.meas[j][1]
                         THEN {"a measurement is reported at the time of its step"} ELSE {})
                     \cup (IF \E j \in 1..Len(st.meas) : ~Near(e.energies[j] * st.meas[j][3], S * st.meas[j][2], Abs(st.meas[j][3]) + 1)
                         THEN {"a reported energy is the weighted energy over the weight"} ELSE {}))
        IN [st |-> st, bad |-> bad]
    [] e.kind = "raise" -> [st |-> st, bad |-> {"the run completes"}]
===============================================================================
