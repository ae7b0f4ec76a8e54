------------------------------ MODULE ReportOps -------------------------------
(* What is written, where, when a message of some kind is logged by a rank on   *)
(* behalf of an object with some verbosity; the class-based logger; the         *)
(* one-rank communicator as the general collectives on one rank.                *)
EXTENDS Arith, TLC
Kinds == {"log", "error", "warn", "note", "info", "debug", "debug1", "debug2", "debug3", "debug4", "stdout"}
(* the verbosity from which a message of a kind is written                      *)
From(k) == CASE k \in {"log", "error"} -> 1 [] k = "warn" -> 2 [] k = "note" -> 3 [] k = "info" -> 4
             [] k \in {"debug", "stdout"} -> 5 [] k = "debug1" -> 6 [] k = "debug2" -> 7 [] k = "debug3" -> 8 [] k = "debug4" -> 9
Label(k) == CASE k = "error" -> "error" [] k = "warn" -> "warn" [] OTHER -> "plain"
(* c = [rank, verb, console]; console: the object's log is the console itself.  *)
(* One message writes these lines: <<stream, message, label>>                   *)
Lines(c, k, id) ==
  (IF c.rank = 0 /\ c.verb >= From(k) THEN << <<"rec", id, Label(k)>> >> ELSE << >>)
  \o (IF c.rank = 0 /\ k = "stdout" THEN << <<"out", id, "plain">> >> ELSE << >>)
  \o (IF k = "error" \/ (k = "warn" /\ c.verb >= 2 /\ ~c.console) THEN << <<"err", id, Label(k)>> >> ELSE << >>)
(* the object's log and the console are the same stream when console holds       *)
Place(c, s) == IF s = "rec" /\ c.console THEN "out" ELSE s
On(c, lines, s) == LET mine == SelectSeq(lines, LAMBDA l : Place(c, l[1]) = s)
                   IN [i \in 1..Len(mine) |-> <<mine[i][2], mine[i][3]>>]
Subseq(a, b) ==
  LET RECURSIVE F(_, _)
      F(i, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
                 ELSE IF a[i] = b[j] THEN F(i + 1, j + 1) ELSE F(i, j + 1)
  IN F(1, 1)
(* ---- the class: a message of a level is written from that level on            *)
Scale(l) == CASE l \in {"QUIET", "LOG"} -> 0 [] l = "CRITICAL" -> 5 [] l = "INFO" -> 10 [] l = "ERROR" -> 15
              [] l = "WARNING" -> 20 [] l = "DEBUG" -> 25 [] l = "DEBUGALL" -> 30
ClassLevels == {"LOG", "CRITICAL", "INFO", "ERROR", "WARNING", "DEBUG", "DEBUGALL"}
Shows(verb, l) == Scale(verb) >= Scale(l)
(* ---- collectives of n ranks contributing v[1..n] (sequences of integers)      *)
SumVec(v) == [i \in 1..Len(v[1]) |-> SumOver(LAMBDA r : v[r][i], 1, Len(v))]
RECURSIVE CatTo(_, _)
CatTo(v, n) == IF n = 0 THEN << >> ELSE CatTo(v, n - 1) \o v[n]
Cat(v) == CatTo(v, Len(v))
Collective(op, v, root) ==     \* what the root receives
  CASE op \in {"Allreduce", "allreduce", "Reduce"} -> SumVec(v)
    [] op \in {"Gather", "Gatherv", "GathervSpec", "Allgather"} -> Cat(v)
    [] op \in {"Bcast", "bcast"} -> v[root]
    [] op \in {"Scatter", "Scatterv", "ScattervSpec"} -> SubSeq(v[root], 1, Len(v[root]) \div Len(v))
    [] op = "gather" -> Cat(v)
    [] op = "scatter" -> SubSeq(v[root], 1, Len(v[root]) \div Len(v))
    [] op = "message" -> v[root]
===============================================================================
