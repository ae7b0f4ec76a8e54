------------------------------- MODULE MdTrace -------------------------------
(* Judges recorded histories of the real dynamics classes.                      *)
EXTENDS MdOps, JudgeSeq
AsSet(s) == {s[i] : i \in 1..Len(s)}
MdStart(run) == LET i0 == run.init IN
  CASE i0.kind = "dirs" -> [i \in 1..i0.ntraj |-> NoTraj]
    [] i0.kind = "move" -> [x |-> i0.x, v |-> i0.v]
    [] OTHER -> 0
(* ---- directories                                                              *)
DirStep(ts, e) ==
  LET ok == Accepts(ts, e.opt)
      s == Started(ts, e.opt, e.log)
      w == IF ok THEN Written(s, e.id) ELSE s
      Bad(i) == LET t == w[i]  r == e.trajs[i] IN
        (IF r.md # t.md.here \/ r.qm # t.qm.here THEN {"a run has its output directories, and a log directory when asked for"} ELSE {})
        \cup (IF AsSet(r.mdfiles) # t.md.files \/ AsSet(r.qmfiles) # t.qm.files
              THEN {IF e.opt = "append" THEN "a resumed run continues in the directories of the earlier one" ELSE "a fresh run starts from empty directories"} ELSE {})
        \cup (IF AsSet(r.all) # All(t) \/ Len(r.all) # Cardinality(All(t)) THEN {"output of earlier runs is kept, each file once"} ELSE {})
  IN [st |-> w,
      bad |-> (IF ok # (e.outcome = "ok") THEN {IF ok THEN "a run starts" ELSE "a run that cannot start is refused"} ELSE {})
         \cup (IF ~ok /\ e.outcome # "ValueError" THEN {"a run that cannot start is refused"} ELSE {})
         \cup UNION {Bad(i) : i \in 1..Len(w)}
         \cup (IF ok /\ e.outcome = "ok" /\ ~e.paths THEN {"the directories of the run are reported"} ELSE {})
         \cup (IF ok /\ e.outcome = "ok" /\ ~e.cwd THEN {"the run works in its base directory"} ELSE {})]
(* ---- moving molecules                                                         *)
MoveStep(i0, s, e) ==
  LET n == Len(s.x)
      x1 == IF e.op = "position" THEN [k \in 1..n |-> Drift(s.x[k], s.v[k], i0.h)] ELSE s.x
      v1 == IF e.op = "velocity" THEN [k \in 1..n |-> Kick(s.v[k], i0.acc[k][e.state], i0.h)] ELSE s.v
      kin == SumOver(LAMBDA k : Kin2(i0.m[k], s.v[k]), 1, n)
      bad == (IF e.outcome # "ok" THEN {"the step completes"} ELSE
              (IF e.x # x1 THEN {"positions advance by the velocities times the step"} ELSE {})
         \cup (IF e.v # v1 THEN {"velocities advance by half a step of the state's acceleration"} ELSE {})
         \cup (IF ~e.rest THEN {"masses and forces are not touched"} ELSE {})
         \cup (IF e.op = "kinetic" /\ e.kin # [k \in 1..n |-> Kin2(i0.m[k], s.v[k])] THEN {"kinetic energy is half the mass times the velocity squared"} ELSE {})
         \cup (IF e.op = "temperature" /\ e.temp # kin THEN {"temperature is twice the kinetic energy per degree of freedom"} ELSE {}))
  IN [st |-> [x |-> x1, v |-> v1], bad |-> bad]
(* ---- single calls                                                             *)
RkBad(e) == IF e.outcome # "ok" THEN {"the step completes"}
            ELSE (IF \E k \in 1..Len(e.y0) : e.inc[k] # RkInc(e.c[k], e.t, e.y0[k], e.h) THEN {"a Runge-Kutta step has its four stages and weights"} ELSE {})
              \cup (IF ~e.kept THEN {"the starting value is not changed"} ELSE {})
MolBad(e) == IF e.outcome # "ok" THEN {"the molecule is built"}
             ELSE (IF e.v # e.veloc THEN {"a molecule starts with the velocities given, at rest otherwise"} ELSE {})
               \cup (IF e.x # e.coords THEN {"a molecule starts at its geometry"} ELSE {})
               \cup (IF e.nstates # e.want \/ e.ndof # e.ndim * Len(e.coords) THEN {"a molecule has its states and degrees of freedom"} ELSE {})
               \cup (IF ~e.zero THEN {"energies and couplings start at zero"} ELSE {})
               \cup (IF ~e.isotopes THEN {"masses are those of the common isotopes in atomic units"} ELSE {})
ResetBad(e) == IF e.outcome # "ok" THEN {"the reset completes"}
               ELSE IF <<e.nacme0, e.nac0>> # (IF ~e.calc THEN <<FALSE, FALSE>> ELSE IF e.lnacme THEN <<TRUE, FALSE>> ELSE <<FALSE, TRUE>>)
               THEN {"a reset clears the couplings that are to be computed again, and only those"} ELSE {}
XyzBad(e) == IF e.outcome # "ok" THEN {"the final geometry is written"}
             ELSE (IF e.natm # Len(e.x) \/ e.symbols # e.wantsym THEN {"the final geometry lists every atom in order"} ELSE {})
               \cup (IF e.fx # e.x \/ e.fv # e.v THEN {"the final geometry holds positions in Angstrom and velocities"} ELSE {})
MdStep(run, s, e) ==
  CASE run.init.kind = "dirs" -> DirStep(s, e)
    [] run.init.kind = "move" -> MoveStep(run.init, s, e)
    [] run.init.kind = "rk" -> [st |-> s, bad |-> RkBad(e)]
    [] run.init.kind = "molecule" -> [st |-> s, bad |-> MolBad(e)]
    [] run.init.kind = "reset" -> [st |-> s, bad |-> ResetBad(e)]
    [] run.init.kind = "xyz" -> [st |-> s, bad |-> XyzBad(e)]
===============================================================================
