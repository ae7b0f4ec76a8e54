------------------------------- MODULE StepTrace -------------------------------
(* Judges recorded calls of the real propagators.                               *)
EXTENDS StepOps, Judge
Tol == 60
VecNear(a, b) == \A m \in 1..Len(a) : \A n \in 1..Len(a[m]) : XNear(a[m][n], b[m][n], Tol)
(* the weight after an update, given R, cfb, cmf (complex), the old values      *)
(* eh: recorded hybrid energy; g: recorded weight factor w'/w                   *)
WeightFails(R, cfb, cmf, sys, ehold, eshift, eh, g, etol) ==
  UNION {(IF Abs(eh - want) > etol THEN {"hybrid energy of the step"} ELSE {})
     \cup (IF g < 0 THEN {"weights stay non-negative"} ELSE {})
     \cup (IF Abs(g - gw) > 60 + RDiv(gw, 40) THEN {"weight is multiplied by the importance factor and the phase cosine"} ELSE {}) :
         gw \in {FMul(FExp(LogGain(want0, ehold, sys.dt, eshift)), Cosine(R, cmf[2])) :
                    want0 \in {Hybrid(FLn(XAbs(R)), cfb[1] + cmf[1], sys.dt, eshift, sys.ebound)}},
         want \in {Hybrid(FLn(XAbs(R)), cfb[1] + cmf[1], sys.dt, eshift, sys.ebound)}}
AfterFails(e, w, a, m) ==
  (IF ~XMNear(a.phia, m.phia, Tol) \/ ~XMNear(a.phib, m.phib, Tol) THEN {"walker orbitals after the step"} ELSE {})
  \cup (IF e.sys.boson /\ ~VecNear(m.bphi, a.bphi) THEN {"boson amplitudes after the step"} ELSE {})
  \cup (IF ~XNear(a.ovlp, m.o1, Tol) THEN {"recorded overlap is that of the new walker"} ELSE {})
  \cup UNION {WeightFails(R, m.cfb, m.cmf, e.sys, w.eh, e.eshift, a.eh, a.g, e.etol) : R \in {XDiv(m.o1, m.o0)}}
StepFails(e) ==
  UNION {UNION {AfterFails(e, e.walkers[k], e.after[k], m) : m \in {Move(e.sys, e.walkers, k, mf)}} : k \in 1..Len(e.walkers), mf \in {MF(e.sys)}}
LocalFails(e) ==   \* local scheme: weight factor exp(-dt eloc) cos+
  LET t == XMul(e.R, XExp(e.cmf))
      cs == Max2(0, FDiv(t[1], XAbs(t)))
      gw == FMul(FExp(-FMul(e.sys.dt, e.eloc)), cs)
  IN IF Abs(e.g - gw) > 60 + RDiv(gw, 40) THEN {"weight is multiplied by the local-energy factor and the phase cosine"} ELSE {}
BiasFails(e) ==
  IF \E n \in 1..Len(e.before) : ~XNear(e.after[n], Bounded(e.before[n], e.bound), 3)
  THEN {"force bias is bounded in modulus and keeps its direction"} ELSE {}
ActFails(e) ==
  LET M == e.M  r == XExpAct(M, e.phi, 1, e.order) IN
  IF ~XMNear(r, e.result, Tol) THEN {"exponential acts on every walker with its own operator"} ELSE {}
(* orthonormal columns spanning the same space; nothing else changes            *)
OrthoFails(e) ==
  (IF ~XMNear(XAdjM(e.after, e.after), XMId(Len(e.after[1])), 15) THEN {"orthonormalised walkers are orthonormal"} ELSE {})
  \cup (IF ~XMNear(XMM(e.after, XAdjM(e.after, e.before)), e.before, 15) THEN {"orthonormalisation keeps the walker's state"} ELSE {})
(* the factor taken out: |det| of the overlap of the new with the old orbitals   *)
RECURSIVE AbsDets(_, _, _)
AbsDets(a, b, k) == IF k > Len(a) THEN S ELSE FMul(XAbs(XDet(XAdjM(a[k], b[k]))), AbsDets(a, b, k + 1))
FactorFails(e) ==
  UNION {(IF ~XNear(e.det, <<d, 0>>, 60 + RDiv(d, 50)) THEN {"the factor taken out of a walker is recorded"} ELSE {})
    \cup (IF ~XNear(e.logdet, <<FLn(e.det[1]), 0>>, 60 + FDiv(30, Max2(e.det[1], 1))) THEN {"the logarithm of the factors accumulates"} ELSE {})
    \cup (IF ~XNear(XScale(e.det[1], e.o1), e.o0, 60 + RDiv(XAbs(e.o1), 50)) THEN {"the recorded overlap is divided by the factor"} ELSE {})
           : d \in {AbsDets(e.after, e.before, 1)}}
SFailing(e) ==
  IF e.kind = "raises" THEN (IF e.outcome # "ValueError" THEN {"an unknown energy scheme is refused"} ELSE {})
  ELSE IF e.outcome # "ok" THEN {"the step completes"}
  ELSE CASE e.kind = "step" -> StepFails(e)
       [] e.kind = "weight" -> WeightFails(e.R, e.cfb, e.cmf, e.sys, e.ehold, e.eshift, e.eh, e.g, e.etol)
       [] e.kind = "local" -> LocalFails(e)
       [] e.kind = "bias" -> BiasFails(e)
       [] e.kind = "ortho" -> OrthoFails(e)
       [] e.kind = "factor" -> FactorFails(e)
       [] e.kind = "act" -> ActFails(e)
       [] OTHER -> {"unknown event"}
===============================================================================
