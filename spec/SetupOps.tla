------------------------------- MODULE SetupOps -------------------------------
(* What an AFQMC simulation is of.  A molecule can be described to the driver in *)
(* many ways (representation, spin formulation, kind of object, form of the      *)
(* integrals, ...): a description d is a record                                  *)
(*   mol, cav ("none" "zero" "one" "two"), orb ("hf" "qed"), obj ("bare" "mol"   *)
(*   "photon"), rep ("OAO" "MO"), spin ("default" "so" "uhf"), own, ints ("chol" *)
(*   "block" "merged" "mblock" "func"), bil (0 1 2), on, frame ("same" "moved"            *)
(*   "renumbered" "angstrom"), fake                                              *)
EXTENDS Arith, TLC
Open(mol) == mol \in {"h3", "beh", "h4"}
Modes(cav) == CASE cav = "none" -> 0 [] cav = "one" -> 1 [] OTHER -> 2
(* descriptions that make sense                                                  *)
Valid(d) ==
  /\ (d.obj = "bare") <=> (d.cav = "none")
  /\ d.orb = "qed" => ~Open(d.mol) /\ d.cav \in {"one", "two"}
  /\ d.obj = "photon" => d.orb = "qed" /\ d.frame # "moved"
  /\ d.own => d.orb = "hf" /\ d.obj # "photon"
  /\ d.ints = "func" => d.cav = "none" /\ ~d.own
  /\ d.ints \in {"merged", "mblock"} => d.cav # "none"
  /\ d.cav \in {"none", "zero"} => d.bil = 0 /\ d.on
Components(d) == IF d.spin # "default" \/ Open(d.mol) THEN 2 ELSE 1
(* the fields a decoupled bilinear coupling adds                                 *)
BilFields(d) == IF d.bil = 0 \/ ~d.on THEN 0 ELSE IF d.bil = 1 THEN 3 * Modes(d.cav) ELSE 2 * Modes(d.cav)
(* what decides the initial energies, and what decides a seeded run              *)
SameStart(d) == <<d.mol, IF d.cav = "zero" THEN "none" ELSE d.cav, d.orb, d.on>>
SameRun(d) ==
  <<d.mol, IF d.cav = "zero" THEN "none" ELSE d.cav, d.orb, d.on, d.own,
    IF d.ints = "func" \/ (d.ints = "merged" /\ d.cav = "zero") THEN "chol" ELSE IF d.ints = "mblock" /\ d.cav = "zero" THEN "block" ELSE d.ints, d.bil,
    IF d.frame = "same" \/ (d.frame \in {"moved", "angstrom"} /\ d.mol \in {"h2", "h3", "h4"}) THEN "same" ELSE d.frame,
    IF d.cav = "zero" /\ d.ints \notin {"merged", "mblock"} THEN d.fake + Modes(d.cav) ELSE d.fake>>
(* ---- energies of a determinant from the traces of its densities               *)
(* t: {tr D h, (D|D), exchange of both spins, and per mode (tr D g)^2, tr D g g, *)
(* exchange}; twice the one- and two-electron energies                           *)
One2(t)  == 2 * t.h + SumSeq(t.s)
Two2(t)  == t.j - t.k + SumSeq(t.mm) - SumSeq(t.x)
Close(a, b, tol) == a # NOTINT /\ b # NOTINT /\ Abs(a - b) <= tol
CloseSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)
===============================================================================
