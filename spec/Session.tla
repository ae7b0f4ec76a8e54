-------------------------------- MODULE Session --------------------------------
(* The session as a state machine.  Hidden process state: the random stream     *)
(* `rng` and the library settings `cfg`; `ws` are the caller's inputs.  Kinds    *)
(* of calculation are built into a slot and run later, so runs interleave.      *)
(* A run's outcome is what its data flow allows it to see.                      *)
EXTENDS SessionOps, Json
CONSTANTS Kinds, Calls, Slots, Length, Leaky
VARIABLES rng, cfg, ws, slot, log, hist
vars == <<rng, cfg, ws, slot, log, hist>>
Seed == 1000
Cfg0 == [k \in {"walkers"} |-> 0]
Init == /\ rng = 0 /\ cfg = 0 /\ ws = 0
        /\ slot = [s \in Slots |-> "none"] /\ log = {} /\ hist = <<>>
(* what a fresh process returns                                                 *)
Alone(k) == <<k, 0, 0, Seed>>
Build(s, k) == /\ slot[s] = "none" /\ slot' = [slot EXCEPT ![s] = k]
               /\ cfg' = IF Leaky /\ k = "afq_opt" THEN 1 ELSE cfg
               /\ hist' = Append(hist, [op |-> "build", slot |-> s, key |-> k])
               /\ UNCHANGED <<rng, ws, log>>
Run(s) == /\ slot[s] # "none"
          /\ log' = log \cup {<<slot[s], <<slot[s], ws, cfg, Seed>>>>}
          /\ rng' = Seed + 1                         \* seeded, then drawn from
          /\ slot' = [slot EXCEPT ![s] = "none"]
          /\ hist' = Append(hist, [op |-> "run", slot |-> s, key |-> slot[s]])
          /\ UNCHANGED <<cfg, ws>>
Call(f) == /\ log' = log \cup {<<f, <<f, ws, cfg, Seed>>>>}
           /\ hist' = Append(hist, [op |-> "call", slot |-> 0, key |-> f])
           /\ UNCHANGED <<rng, cfg, ws, slot>>
Draw == /\ rng' = (rng + 7) % 5 /\ hist' = Append(hist, [op |-> "draw", slot |-> 0, key |-> "draw"])
        /\ UNCHANGED <<cfg, ws, slot, log>>
Next == /\ Len(hist) < Length
        /\ \/ \E s \in Slots : Run(s) \/ \E k \in Kinds : Build(s, k)
           \/ \E f \in Calls : Call(f)
           \/ Draw
Spec == Init /\ [][Next]_vars
(* same call, same answer, whatever happened before; inputs and settings intact *)
Isolated == \A e \in log : e[2] = Alone(e[1])
Intact == ws = 0 /\ cfg = 0
Emit == Len(hist) = Length => PrintT("CASE " \o ToJson(hist))
(* two calculations, whole: both alive at once, or one after the other          *)
Busy == {s \in Slots : slot[s] # "none"}
PairNext == /\ Len(hist) < Length
            /\ \/ \E s \in Slots : Run(s)
               \/ \E k \in Kinds : Build(1, k) \/ (slot[1] # "none" /\ Build(2, k))
PairSpec == Init /\ [][PairNext]_vars
EmitPairs == (Len(hist) = Length /\ Busy = {}) => PrintT("CASE " \o ToJson(hist))
===============================================================================
