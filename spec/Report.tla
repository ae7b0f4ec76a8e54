-------------------------------- MODULE Report ---------------------------------
(* A calculation that logs as it goes, run twice with the same inputs, once at   *)
(* verbosity a and once at a higher one; every history of messages.              *)
EXTENDS ReportOps, Json
CONSTANTS MaxMsgs, Extra
VARIABLES cfg, calc, logs, hist
vars == <<cfg, calc, logs, hist>>
Pair(c) == <<c, [c EXCEPT !.verb = c.verb + Extra]>>
Init == /\ cfg \in [rank : {0, 1}, verb : 0..9, console : BOOLEAN]
        /\ calc = <<0, 0>> /\ logs = << << >>, << >> >> /\ hist = << >>
Say(k) == LET id == Len(hist) + 1 IN
  /\ calc' = [i \in 1..2 |-> 7 * calc[i] + id]
  /\ logs' = [i \in 1..2 |-> logs[i] \o Lines(Pair(cfg)[i], k, id)]
  /\ hist' = Append(hist, k) /\ UNCHANGED cfg
Next == Len(hist) < MaxMsgs /\ \E k \in Kinds : Say(k)
Spec == Init /\ [][Next]_vars
Unwatched == calc[1] = calc[2]
(* more verbosity only adds lines, on every stream                                *)
OnlyAdds == \A s \in {"rec", "out", "err"} : Subseq(On(cfg, logs[1], s), On(cfg, logs[2], s))
InOrder == \A s \in {"rec", "out", "err"} : LET l == On(cfg, logs[1], s) IN
             \A i, j \in 1..Len(l) : i < j => l[i][1] <= l[j][1]
OnceEach == ~cfg.console => \A s \in {"rec", "out", "err"} : LET l == On(cfg, logs[1], s) IN
             \A i, j \in 1..Len(l) : i # j => l[i][1] # l[j][1]
OthersSilent == cfg.rank # 0 => On(cfg, logs[1], "rec") = << >> /\ On(cfg, logs[1], "out") = << >>
ErrorsArrive == \A i \in 1..Len(hist) : hist[i] = "error" => \E l \in 1..Len(logs[1]) : logs[1][l] = <<"err", i, "error">>
WarningsArrive == cfg.verb >= 2 /\ cfg.rank = 0 => \A i \in 1..Len(hist) : hist[i] = "warn" =>
                    \E l \in 1..Len(logs[1]) : logs[1][l] = <<"rec", i, "warn">>
QuietIsQuiet == cfg.verb = 0 => On([cfg EXCEPT !.console = FALSE], logs[1], "rec") = << >>
Complete == cfg.verb >= 9 /\ cfg.rank = 0 => Len(On([cfg EXCEPT !.console = FALSE], logs[1], "rec")) = Len(hist)
(* ---- on one rank every collective gives back what was contributed              *)
Ops == {"Allreduce", "allreduce", "Reduce", "Gather", "Gatherv", "Allgather", "Bcast", "bcast", "Scatter", "Scatterv", "gather", "scatter", "message"}
Alone == \A op \in Ops : \A v \in {<<1>>, <<2, 0 - 3>>, <<4, 5, 6>>} : Collective(op, <<v>>, 1) = v
(* scattering what was gathered gives every rank its own                           *)
RoundTrip == \A a, b \in {<<1, 2>>, <<0 - 1, 4>>} : Collective("Scatter", <<Collective("Gather", <<a, b>>, 1), b>>, 1) = a
(* a less talkative logger shows no more                                           *)
Nested == \A u, v \in ClassLevels \cup {"QUIET"} : \A l \in ClassLevels : Scale(u) <= Scale(v) /\ Shows(u, l) => Shows(v, l)
Emit == Len(hist) = MaxMsgs => PrintT("CASE " \o ToJson([rank |-> cfg.rank, verb |-> cfg.verb, console |-> cfg.console, hist |-> hist]))
=================================================================================
