--------------------------------- MODULE Step ---------------------------------
(* A walker of two orbitals and one electron per spin propagated under every    *)
(* sequence of a few field values, sub-step by sub-step.                        *)
EXTENDS StepOps
CONSTANTS Fields, Steps, Hs, Shifts
VARIABLES wk, pc, t, aux, sysv
vars == <<wk, pc, t, aux, sysv>>
R2(a, b, c) == << << <<a, 0>>, <<b, 0>> >>, << <<b, 0>>, <<c, 0>> >> >>
L1 == R2(4000, 3000, -2000)
L2 == R2(-1000, 5000, 1000)
H1 == R2(-9000, 2000, 3000)
Sys(h) == [psia |-> << <<X1>>, <<XZ>> >>, psib |-> << <<X1>>, <<XZ>> >>, hs |-> << IF h = 1 THEN H1 ELSE XMZero(2, 2) >>,
           ls |-> <<L1, L2>>, dt |-> 1600, rdt |-> 4000, ebound |-> 35355, order |-> 6, fbound |-> S, ncomp |-> 1, boson |-> FALSE]
None == [cfb |-> XZ, cmf |-> XZ, o0 |-> X1, o1 |-> X1]
Init == /\ \E h \in Hs : sysv = Sys(h)
        /\ wk = [phia |-> << <<X1>>, <<XZ>> >>, phib |-> << <<X1>>, <<XZ>> >>, xi |-> <<0, 0>>, w |-> S, eh |-> 0, bphi |-> <<>>]
        /\ pc = "draw" /\ t = 0 /\ aux = [m |-> None, eshift |-> 0, w0 |-> S]
Draw == /\ pc = "draw" /\ t < Steps /\ pc' = "move" /\ t' = t + 1
        /\ \E x1, x2 \in Fields, es \in Shifts : wk' = [wk EXCEPT !.xi = <<x1, x2>>] /\ aux' = [aux EXCEPT !.eshift = es, !.w0 = wk.w]
        /\ UNCHANGED sysv
Go == /\ pc = "move" /\ pc' = "weigh"
      /\ LET m == Move(sysv, <<wk>>, 1, MF(sysv)) IN
           wk' = [wk EXCEPT !.phia = m.phia, !.phib = m.phib] /\ aux' = [aux EXCEPT !.m = [cfb |-> m.cfb, cmf |-> m.cmf, o0 |-> m.o0, o1 |-> m.o1]]
      /\ UNCHANGED <<t, sysv>>
Weigh == /\ pc = "weigh" /\ pc' = "draw"
         /\ LET R == XDiv(aux.m.o1, aux.m.o0)
                eh == Hybrid(FLn(XAbs(R)), aux.m.cfb[1] + aux.m.cmf[1], sysv.dt, aux.eshift, sysv.ebound)
            IN wk' = [wk EXCEPT !.eh = eh, !.w = FMul(wk.w, FMul(FExp(LogGain(eh, wk.eh, sysv.dt, aux.eshift)), Cosine(R, aux.m.cmf[2])))]
         /\ UNCHANGED <<t, aux, sysv>>
Next == Draw \/ Go \/ Weigh
Spec == Init /\ [][Next]_vars
(* ---------------------------------------------------------------------------- *)
NonNegative == wk.w >= 0
EnergyBounded == (pc = "draw" /\ t > 0) => Abs(wk.eh - aux.eshift) <= sysv.ebound
(* a step multiplies a weight by at most exp(dt * bound) around the shift       *)
GrowthBounded == (pc = "draw" /\ t > 0) => wk.w <= FMul(aux.w0, FExp(FMul(sysv.dt, sysv.ebound + 10000))) + 40
(* a walker whose overlap (with the mean-field factor) turned by more than a    *)
(* right angle is removed                                                       *)
PhaseKills == (pc = "draw" /\ t > 0) =>
    LET r == XMul(XDiv(aux.m.o1, aux.m.o0), <<FCos(aux.m.cmf[2]), FSin(aux.m.cmf[2])>>) IN r[1] <= 0 => wk.w = 0
(* the trial itself needs no force bias                                         *)
NoBiasAtTrial == t = 0 => \A n \in 1..2 : XNear(Bias(sysv, wk, MF(sysv))[n], XZ, 2)
(* averaging a step over the fields gives the same state whatever force bias    *)
(* and mean-field shift are used (three-point quadrature, one field, no h; the  *)
(* mean-field shift leaves a constant energy <L>^2/2 apart)                     *)
One1 == [Sys(0) EXCEPT !.ls = <<L1>>]
Avg(b, mf) ==
  LET sq3 == 17321
      Term(x, q) == LET xb == <<b>>   xs == Shifted(<<x>>, xb)
                        c == XExp(XAdd(XAdd(CFB(<<x>>, xb), CMF(One1, xs, mf)), <<FMul(RDiv(One1.dt, 2), FMul(mf[1][1], mf[1][1])), 0>>))
                    IN XMScale(XScale(q, c), MoveSpin(One1, 1, wk.phia, xs, mf, XMZero(2, 2)))
  IN XMAdd(XMAdd(Term(-sq3, 1667), Term(0, 6666)), Term(sq3, 1667))
Unbiased == pc = "draw" => \A b \in {<<0, 0>>, <<1500, 0>>, <<0, -2000>>} : \A mf \in { << <<0, 0>> >>, << <<4000, 0>> >> } :
               XMNear(Avg(b, mf), Avg(<<0, 0>>, << <<0, 0>> >>), 60)
===============================================================================
