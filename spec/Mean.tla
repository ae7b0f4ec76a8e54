--------------------------------- MODULE Mean ---------------------------------
(* A mean-field session on one physical system: the description of cavity and    *)
(* molecule changes, calculations are restarted from other guesses, geometries   *)
(* are scanned back and forth; the energy is a function of method and geometry.  *)
EXTENDS MeanOps, Json
CONSTANTS Length, MaxModes, Starts
VARIABLES meth, live, geo, modes, fr, start, hist
vars == <<meth, live, geo, modes, fr, start, hist>>
V(x, y, z) == [w |-> 5, v |-> <<x, y, z>>]
Cavity(k) == CASE k = 1 -> << V(25, -50, 75) >>
               [] k = 2 -> << V(0, 50, 75), [V(25, 0, -50) EXCEPT !.w = 3] >>
               [] OTHER -> << V(0, 0, 100) >>
Log(op, arg) == hist' = Append(hist, [op |-> op, arg |-> arg, meth |-> meth, live |-> live, geo |-> geo', modes |-> modes', fr |-> fr', start |-> start])
Init == /\ meth \in {"Q", "SC", "VT"} /\ live \in BOOLEAN /\ start \in Starts
        /\ (meth # "Q" => start # 2)
        /\ geo = 0 /\ modes = Cavity(start) /\ fr = Straight /\ hist = <<>>
Still == UNCHANGED <<meth, live, start>>
Keep == geo' = geo /\ modes' = modes /\ fr' = fr
(* changes of the cavity's description: a new object is built                    *)
Rebuild == ~live
Many == Rebuild /\ meth = "Q"
Swap == \E i, j \in 1..Len(modes) : i < j /\ Many /\ modes' = Swapped(modes, i, j) /\ geo' = geo /\ fr' = fr /\ Log("swap", 0)
Flip == \E i \in 1..Len(modes) : Rebuild /\ modes' = [modes EXCEPT ![i].v = Neg(@)] /\ geo' = geo /\ fr' = fr /\ Log("flip", 0)
Dark == /\ Many /\ Len(modes) < MaxModes
        /\ \E k \in 0..Len(modes) : modes' = SubSeq(modes, 1, k) \o << [w |-> 7, v |-> <<0, 0, 0>>] >> \o SubSeq(modes, k + 1, Len(modes))
        /\ geo' = geo /\ fr' = fr /\ Log("dark", 0)
Split == /\ Many /\ Len(modes) < MaxModes
         /\ \E i \in 1..Len(modes) : /\ Fifth(modes[i].v)
               /\ modes' = Append([modes EXCEPT ![i].v = [k \in XYZ |-> (3 * @[k]) \div 5]], [w |-> 9, v |-> [k \in XYZ |-> (4 * modes[i].v[k]) \div 5]])
         /\ geo' = geo /\ fr' = fr /\ Log("split", 0)
Mix == /\ Many
       /\ \E i, j \in 1..Len(modes) : i < j /\ Fifth(modes[i].v) /\ Fifth(modes[j].v)
             /\ modes' = [modes EXCEPT ![i].v = Mixed(modes[i].v, modes[j].v, 3, 4), ![j].v = Mixed(modes[i].v, modes[j].v, -4, 3)]
       /\ geo' = geo /\ fr' = fr /\ Log("mix", 0)
Retune == \E i \in 1..Len(modes), w \in {3, 5, 8} : Many /\ w # modes[i].w /\ modes' = [modes EXCEPT ![i].w = w] /\ geo' = geo /\ fr' = fr /\ Log("retune", 0)
Rotate == Rebuild /\ \E r \in Frames : /\ r.s * fr.s <= 25 /\ \A i \in 1..Len(modes) : Fits(r, modes[i].v)
            /\ fr' = Then(r, fr) /\ modes' = [i \in 1..Len(modes) |-> [modes[i] EXCEPT !.v = Turned(r, @)]] /\ geo' = geo /\ Log("rotate", 0)
Move == \E d \in {1, 2} : Keep /\ Log("move", d)
(* on a living object or a new one                                              *)
Scan == geo' = 1 - geo /\ modes' = modes /\ fr' = fr /\ Log("scan", 0)
Again == Keep /\ Log("again", 0)
Guess == \E g \in {"1e", "minao", "atom"} \cup (IF meth = "Q" THEN {"huckel", "rotated"} ELSE {}) : Keep /\ Log("guess", g)
(* how the equations are solved                                                 *)
Settings == \E s \in {"shift"} \cup (IF meth = "Q" THEN {"damp", "plain", "late", "small", "both", "direct"} ELSE {}) : Keep /\ Log("settings", s)
Next == Len(hist) < Length /\ Still /\ (Swap \/ Flip \/ Dark \/ Split \/ Mix \/ Retune \/ Rotate \/ Move \/ Scan \/ Again \/ Guess \/ Settings)
Spec == Init /\ [][Next]_vars
Same == SameCavity(modes, Cavity(start), fr)
Orthogonal == MulM(fr.m, Tr(fr.m)) = Scaled(Unit, fr.s * fr.s)
(* the size of the coupling in the system's own frame                           *)
Bounded == Len(modes) <= MaxModes /\ (meth # "Q" => Len(modes) = 1)
Emit == Len(hist) = Length => PrintT("CASE " \o ToJson(hist))
===============================================================================
