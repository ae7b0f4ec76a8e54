-------------------------------- MODULE Judge --------------------------------
(* Judges recorded events of the real code one by one.  Failing(e) is the set   *)
(* of names of the clauses of the specification which event e breaks; it is     *)
(* total, every event is judged, and each broken clause is reported by name.    *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
CONSTANT Failing(_)
VARIABLE j_l
Trace  == ndJsonDeserialize(IOEnv.TRACE)
Chains == 16
Init == j_l \in 1..(IF Len(Trace) < Chains THEN Len(Trace) ELSE Chains)
Next == j_l + Chains <= Len(Trace) /\ j_l' = j_l + Chains
Judged == LET f == Failing(Trace[j_l])
          IN  \A c \in f : PrintT("FAIL " \o ToString(j_l) \o " " \o c)
Spec == Init /\ [][Next]_j_l
===============================================================================
