------------------------------ MODULE ReportTrace ------------------------------
(* Judges what the real logger, communicator and wrappers did.                     *)
EXTENDS ReportOps, Judge
RECURSIVE AllLines(_, _, _)
AllLines(c, h, n) == IF n = 0 THEN << >> ELSE AllLines(c, h, n - 1) \o Lines(c, h[n], n)
Stream(c, lines, s) == On(c, lines, s)
LogBad(e) ==
  LET c == [rank |-> e.rank, verb |-> e.verb, console |-> e.console]
      lines == AllLines(c, e.hist, Len(e.hist))
      want(s) == On(c, lines, s)
      ids(l) == [i \in 1..Len(l) |-> l[i][1]]
      bad(got, s) ==
        (IF ids(got) # ids(want(s)) THEN
          {CASE e.rank # 0 -> "ranks other than the first write nothing"
             [] s = "err" -> "errors, and warnings off the console, reach the error stream"
             [] s = "rec" -> "a message is written to the object's log, once and in order, exactly when its verbosity admits it"
             [] s = "out" -> "the console gets what is meant for it, once and in order"}
         ELSE IF got # want(s) THEN {"errors and warnings are labelled, other messages are not"} ELSE {})
  IN IF e.outcome # "ok" THEN {"logging a message of any kind completes at any verbosity"}
     ELSE bad(e.rec, "rec") \cup bad(e.out, "out") \cup (IF e.rank = 0 THEN bad(e.err, "err") ELSE {})
          \cup (IF ~e.filled THEN {"messages are written with their arguments filled in"} ELSE {})
ClassBad(e) ==
  LET ok == \A i \in 1..Len(e.hist) : e.hist[i] # "BOGUS"
      shown == SelectSeq([i \in 1..Len(e.hist) |-> i], LAMBDA i : Shows(e.verb, e.hist[i]))
  IN (IF e.outcome # "ok" THEN {"logging a message of any kind completes at any verbosity"}
      ELSE IF e.before # e.wantbefore THEN {"a log file is appended to"}
      ELSE IF e.got # shown THEN {"a log shows the messages its level admits, once and in order"} ELSE {})
     \cup (IF e.bogus # "ValueError" THEN {"an unknown level is refused"} ELSE {})
CommBad(e) ==
  IF e.outcome # "ok" THEN {"the operation completes on one rank"}
  ELSE (IF e.got # Collective(e.op, <<e.v>>, 1) THEN {"on one rank a collective gives back what the rank contributed"} ELSE {})
    \cup (IF ~e.apart THEN {"what is received is independent of what was sent"} ELSE {})
    \cup (IF ~e.kept THEN {"what is sent is not changed"} ELSE {})
WorldBad(e) == IF <<e.rank, e.size, e.rank2, e.size2>> # <<0, 1, 0, 1>> THEN {"a serial program is rank 0 of 1, in every communicator"} ELSE {}
WrapBad(e) ==
  (IF e.outcome # e.want THEN {"a wrapper hands results and exceptions through"} ELSE {})
  \cup (IF e.args # e.wantargs THEN {"a wrapper hands the arguments through, once"} ELSE {})
  \cup (IF e.warned # e.wantwarn THEN {"a deprecated function warns, and only then"} ELSE {})
  \cup (IF ~e.named THEN {"a wrapped function keeps its name"} ELSE {})
WatchBad(e) ==
  (IF e.got # e.want THEN {"the verbosity of a calculation does not change its results"} ELSE {})
  \cup (IF e.silent /\ e.text THEN {"a quiet object writes nothing to its log"} ELSE {})
PrintBad(e) == IF e.shown # (e.rank = 0) THEN {"ranks other than the first write nothing"} ELSE {}
StartBad(e) == IF e.outcome # "ok" THEN {"a program starts on every rank"} ELSE {}
ReportFailing(e) ==
  CASE e.kind = "log" -> LogBad(e)
    [] e.kind = "class" -> ClassBad(e)
    [] e.kind = "comm" -> CommBad(e)
    [] e.kind = "world" -> WorldBad(e)
    [] e.kind = "wrap" -> WrapBad(e)
    [] e.kind = "watch" -> WatchBad(e)
    [] e.kind = "start" -> StartBad(e)
    [] e.kind = "print" -> PrintBad(e)
=================================================================================
