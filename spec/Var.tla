--------------------------------- MODULE Var ---------------------------------
(* A variational run: the parameters move by gradient steps and by extrapolated *)
(* vectors (which arrive packed).                                               *)
EXTENDS VarOps
CONSTANTS NEta, NMode, Vals, MaxLen
VARIABLES s, o, hist
vars == <<s, o, hist>>
Vecs(n) == [1..n -> Vals]
Init == /\ s \in [eta : Vecs(NEta), f : Vecs(NMode), r : Vecs(NMode)] /\ o \in [f : BOOLEAN, r : BOOLEAN] /\ hist = <<s>>
Step == \E g \in [eta : Vecs(NEta), f : Vecs(NMode), r : Vecs(NMode)] : Len(hist) < MaxLen /\ s' = StepVar(s, g, o, 1) /\ hist' = Append(hist, s')
(* extrapolation: any affine combination of two earlier vectors                   *)
Extra == \E i, j \in 1..Len(hist) : /\ Len(hist) < MaxLen /\ i # j
             /\ s' = UnpackVar([k \in 1..Len(PackVar(s, o)) |-> 2 * PackVar(hist[i], o)[k] - PackVar(hist[j], o)[k]], s, o) /\ hist' = Append(hist, s')
Next == (Step \/ Extra) /\ UNCHANGED o
Spec == Init /\ [][Next]_vars
Shape == Len(s.eta) = NEta /\ Len(s.f) = NMode /\ Len(s.r) = NMode
RoundTrip == UnpackVar(PackVar(s, o), s, o) = s
(* parameters which are not optimised never move                                 *)
Frozen == (~o.f => s.f = hist[1].f) /\ (~o.r => s.r = hist[1].r)
===============================================================================
