----------------------------- MODULE SessionTrace -----------------------------
EXTENDS SessionOps, JudgeSeq
SStart(run) == 0
SStep(run, st, ev) == [st |-> st + 1, bad |-> Broken(run.first, ev)]
===============================================================================
