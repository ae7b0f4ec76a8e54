--------------------------------- MODULE Md ----------------------------------
(* Every history of starting runs over the same output directory.               *)
EXTENDS MdOps, Json
CONSTANTS NTraj, MaxOps
VARIABLES ts, written, hist, last
vars == <<ts, written, hist, last>>
Init == ts = [i \in 1..NTraj |-> NoTraj] /\ written = {} /\ hist = << >> /\ last = "none"
Run(opt, log) ==
  LET s == Started(ts, opt, log)
      ok == Accepts(ts, opt)
      id == 100 * (Len(hist) + 1)
      w == IF ok THEN Written(s, id) ELSE s
  IN /\ ts' = w
     /\ written' = written \cup UNION {All(w[i]) \ All(s[i]) : i \in 1..NTraj}
     /\ hist' = Append(hist, [opt |-> opt, log |-> log])
     /\ last' = IF ok THEN opt ELSE "refused"
Next == Len(hist) < MaxOps /\ \E opt \in Known \cup {"other"}, log \in BOOLEAN : Run(opt, log)
Spec == Init /\ [][Next]_vars
NothingLost == UNION {All(ts[i]) : i \in 1..NTraj} = written
Apart == \A i \in 1..NTraj : /\ ts[i].md.files \cap ts[i].qm.files = {}
                             /\ (ts[i].md.files \cup ts[i].qm.files) \cap ts[i].aside = {}
                             /\ (~ts[i].md.here => ts[i].md.files = {}) /\ (~ts[i].qm.here => ts[i].qm.files = {})
(* a fresh run starts from an empty directory: only its own file is there       *)
FreshIsEmpty == last \in {"none", "write"} /\ hist # << >> => \A i \in 1..NTraj : Cardinality(ts[i].md.files) = 1
AsideGrows == [][\A i \in 1..NTraj : ts[i].aside \subseteq ts'[i].aside]_vars
RefusalIsClean == [][last' = "refused" => ts' = ts]_vars
Emit == Len(hist) = MaxOps => PrintT("CASE " \o ToJson([hist |-> hist]))
===============================================================================
