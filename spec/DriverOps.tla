------------------------------ MODULE DriverOps ------------------------------
(* The AFQMC driver's schedule (step numbers start at 0).                      *)
EXTENDS Arith, TLC
Every(step, freq) == (step + 1) % freq = 0
(* orthonormalised just before the propagation of this step                    *)
FreshAt(step, renorm) == step = 0 \/ Every(step, renorm)
(* measurements of a run                                                       *)
Measured(nsteps, freq) == {k \in 0..(nsteps - 1) : Every(k, freq)}
NMeas(nsteps, freq) == nsteps \div freq
(* energy shift after a window: weighted mean of the hybrid energies           *)
WindowW(ws) == SumOver(LAMBDA i : ws[i][1], 1, Len(ws))
WindowE(ws) == SumOver(LAMBDA i : ws[i][2], 1, Len(ws))
===============================================================================
