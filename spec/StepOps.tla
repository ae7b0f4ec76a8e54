-------------------------------- MODULE StepOps --------------------------------
(* One importance-sampled phaseless step of an ensemble of walkers, in          *)
(* fixed-point arithmetic.  sys: psia, psib (trial orbitals), hs (one-body      *)
(* matrix per spin), ls (fields), dt, rdt (its square root), ebound, order      *)
(* (terms of the exponential), fbound (bound of the force bias), ncomp, and     *)
(* when sys.boson: om, geb, bpsi (per mode).                                    *)
EXTENDS Fixed
Psi(sys, s) == IF s = 1 THEN sys.psia ELSE sys.psib
Phi(w, s)   == IF s = 1 THEN w.phia ELSE w.phib
HOf(sys, s) == sys.hs[IF Len(sys.hs) = 1 THEN 1 ELSE s]
NAO(sys) == Len(sys.psia)
(* sum over occupied orbitals of both spins of <o> in the trial determinant     *)
(* (its orbitals are orthonormal)                                               *)
TrialMean(sys, o) ==
  LET T(s) == LET m == XAdjM(Psi(sys, s), XMM(o, Psi(sys, s))) IN XSum(LAMBDA i : m[i][i], 1, Len(m))
  IN XAdd(T(1), T(2))
(* overlap and mixed mean of a one-body operator; both spins                    *)
Swap(m, x, c) == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> IF j = c THEN x[i][j] ELSE m[i][j]]])
SpinOvl(sys, w, s) == XDet(XAdjM(Psi(sys, s), Phi(w, s)))
ElecOvl(sys, w) == XMul(SpinOvl(sys, w, 1), SpinOvl(sys, w, 2))
MixedMean(sys, w, o) ==
  LET T(s) == Only({XDiv(XSum(LAMBDA c : XDet(Swap(m, x, c)), 1, Len(m)), XDet(m)) :
                      m \in {XAdjM(Psi(sys, s), Phi(w, s))}, x \in {XAdjM(Psi(sys, s), XMM(o, Phi(w, s)))}})
  IN XAdd(T(1), T(2))
(* ------------------------------ electronic part ----------------------------- *)
MF(sys) == TLCEval([n \in 1..Len(sys.ls) |-> TrialMean(sys, sys.ls[n])])
HEff(sys, s, mf, extra) ==
  LET sq == XMSum(LAMBDA n : XMM(sys.ls[n], sys.ls[n]), 1, Len(sys.ls), NAO(sys))
      ml == XMSum(LAMBDA n : XMScale(mf[n], sys.ls[n]), 1, Len(sys.ls), NAO(sys))
  IN XMAdd(XMAdd(HOf(sys, s), XMScale(<<-(S \div 2), 0>>, sq)), XMAdd(ml, extra))
HalfStep(sys, h, phi) == XExpAct(XMScale(<<-RDiv(sys.dt, 2), 0>>, h), phi, 1, 9)
Bounded(x, b) == Only({LET a == XAbs(u) IN IF a > b THEN XScale(FDiv(b, a), u) ELSE u : u \in {x}})
(* the force bias of every field: -sqrt(dt) (i vbias - i mf), bounded           *)
Bias(sys, w, mf) == TLCEval([n \in 1..Len(sys.ls) |->
    Bounded(XMul(<<0, -sys.rdt>>, XSub(MixedMean(sys, w, sys.ls[n]), mf[n])), sys.fbound)])
FieldOp(sys, xs) == XMScale(<<0, sys.rdt>>, XMSum(LAMBDA n : XMScale(xs[n], sys.ls[n]), 1, Len(sys.ls), NAO(sys)))
Shifted(xi, xb) == TLCEval([n \in 1..Len(xi) |-> XSub(<<xi[n], 0>>, xb[n])])
CFB(xi, xb) == XSum(LAMBDA n : XMul(XSub(<<xi[n], 0>>, XDivInt(xb[n], 2)), xb[n]), 1, Len(xi))
CMF(sys, xs, mf) == XSum(LAMBDA n : XMul(<<0, -sys.rdt>>, XMul(xs[n], mf[n])), 1, Len(xs))
MoveSpin(sys, s, phi, xs, mf, extra) ==
  Only({HalfStep(sys, h, XExpAct(FieldOp(sys, xs), HalfStep(sys, h, phi), 1, sys.order)) : h \in {HEff(sys, s, mf, extra)}})
(* -------------------------------- boson part -------------------------------- *)
RootOf(n) == FSqrt(n * S)
BMean(c) ==   \* <a + a^dagger> of the amplitudes of one mode
  LET F(n) == 2 * FMul(RootOf(n), XMul(XConj(c[n]), c[n + 1])[1]) IN SumOver(F, 1, Len(c) - 1)
Free(c, om, dt) == TLCEval([n \in 1..Len(c) |-> XScale(FExp(-(n - 1) * FMul(om, dt)), c[n])])
Ladder(d, z) == TLCEval([i \in 1..d |-> [j \in 1..d |-> IF j = i + 1 THEN XScale(RootOf(i), z) ELSE IF i = j + 1 THEN XScale(RootOf(j), z) ELSE XZ]])
Couple(c, z, dt) == Only({TLCEval([i \in 1..Len(c) |-> r[i][1]]) : r \in {XExpAct(Ladder(Len(c), XScale(-dt, z)), [i \in 1..Len(c) |-> <<c[i]>>], 1, 10)}})
BoseOvl(sys, w) == XSum(LAMBDA m : XSum(LAMBDA n : XMul(XConj(sys.bpsi[m][n]), w.bphi[m][n]), 1, Len(sys.bpsi[m])), 1, Len(sys.bpsi))
Ovlp(sys, w) == IF sys.boson THEN XMul(ElecOvl(sys, w), BoseOvl(sys, w)) ELSE ElecOvl(sys, w)
WSum(ws) == SumOver(LAMBDA k : ws[k].w, 1, Len(ws))
QMean(sys, ws) == TLCEval([m \in 1..Len(sys.geb) |-> FDiv(SumOver(LAMBDA k : FMul(ws[k].w, BMean(ws[k].bphi[m])), 1, Len(ws)), WSum(ws))])
ZMean(sys, ws) == TLCEval([m \in 1..Len(sys.geb) |->
    LET t == XSum(LAMBDA k : XScale(ws[k].w, MixedMean(sys, ws[k], sys.geb[m])), 1, Len(ws)) IN <<FDiv(t[1], WSum(ws)), FDiv(t[2], WSum(ws))>>])
MoveBoson(sys, c, m, z) == Only({Free(u2, sys.om[m], RDiv(sys.dt, 2)) : u2 \in {Only({Couple(u1, z[m], sys.dt) : u1 \in {Free(c, sys.om[m], RDiv(sys.dt, 2))}})}})
(* ----------------------------------- step ----------------------------------- *)
(* the walker's orbitals and boson amplitudes after the step, with the factors  *)
Extra(sys, q) == IF sys.boson THEN XMSum(LAMBDA m : XMScale(<<q[m], 0>>, sys.geb[m]), 1, Len(sys.geb), NAO(sys)) ELSE XMZero(NAO(sys), NAO(sys))
Moved(sys, w, mf, xb, xs, extra, z) ==
  LET pa == MoveSpin(sys, 1, w.phia, xs, mf, extra)
      pb == IF sys.ncomp = 1 THEN pa ELSE MoveSpin(sys, 2, w.phib, xs, mf, extra)
      bp == IF sys.boson THEN TLCEval([m \in 1..Len(sys.bpsi) |-> MoveBoson(sys, w.bphi[m], m, z)]) ELSE <<>>
  IN Only({[phia |-> nw.phia, phib |-> nw.phib, bphi |-> nw.bphi, cfb |-> CFB(w.xi, xb), cmf |-> CMF(sys, xs, mf),
            o0 |-> Ovlp(sys, w), o1 |-> Ovlp(sys, nw), xb |-> xb] : nw \in {[phia |-> pa, phib |-> pb, bphi |-> bp]}})
Move(sys, ws, k, mf) ==
  Only({Moved(sys, ws[k], mv, xb, Shifted(ws[k].xi, xb), ex, z) :
          mv \in {mf}, xb \in {Bias(sys, ws[k], mf)},
          ex \in {Extra(sys, IF sys.boson THEN QMean(sys, ws) ELSE <<>>)},
          z \in {IF sys.boson THEN ZMean(sys, ws) ELSE <<>>}})
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* hybrid energy from ln|R| + Re(cfb + cmf), clipped around the shift           *)
Hybrid(lnR, c, dt, eshift, ebound) == Clip(FDiv(-(lnR + c), dt), eshift - ebound, eshift + ebound)
(* cosine of the phase of R exp(cmf), negative ones count as zero               *)
Cosine(R, imc) == Only({Max2(0, FDiv(t[1], XAbs(R))) : t \in {XMul(R, <<FCos(imc), FSin(imc)>>)}})
(* logarithm of the weight factor apart from the cosine                         *)
LogGain(eh, ehold, dt, eshift) == -FMul(dt, RDiv(eh + ehold, 2) - eshift)
===============================================================================
