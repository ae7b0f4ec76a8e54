------------------------------- MODULE JudgeSeq -------------------------------
(* Judges recorded histories of the real code.  Each line of the trace is one  *)
(* run: {"run":.., "init":.., "events":[..]}.  The specification's state st is *)
(* advanced event by event with the specification's own step operator, which   *)
(* also names the clauses the event breaks; after a broken event the run stops *)
(* (the rest of that history has no meaning in the specification).             *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
CONSTANTS StartOf(_),        \* run -> initial specification state
          StepOf(_, _, _)    \* run, state, event -> [st |-> next state, bad |-> set of clauses]
VARIABLES j_r, j_k, j_st, j_dead
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == /\ j_r \in 1..Len(Trace) /\ j_k = 0 /\ j_st = StartOf(Trace[j_r]) /\ j_dead = FALSE
Next == /\ j_k < Len(Trace[j_r].events) /\ ~j_dead
        /\ LET o == StepOf(Trace[j_r], j_st, Trace[j_r].events[j_k + 1]) IN
             /\ j_st' = o.st /\ j_dead' = (o.bad # {})
             /\ \A c \in o.bad : PrintT("FAIL " \o ToString(j_r) \o " step " \o ToString(j_k + 1) \o ": " \o c)
        /\ j_k' = j_k + 1 /\ UNCHANGED j_r
Spec == Init /\ [][Next]_<<j_r, j_k, j_st, j_dead>>
===============================================================================
