------------------------------ MODULE SetupTrace ------------------------------
(* Judges what the AFQMC driver set up and ran for each description.             *)
EXTENDS SetupOps, Judge
Bad(ok, what) == IF ok THEN {} ELSE {what}
Eb10(e) == SumOver(LAMBDA m : SumOver(LAMBDA n : e.w[m] * (n - 1) * e.p[m][n], 1, Len(e.p[m])), 1, Len(e.p))
Eg8(e)  == SumOver(LAMBDA m : e.c[m] * e.bb[m], 1, Len(e.c))
StartBad(e) ==
  Bad(Valid(e.d), "descriptions are valid")
  \cup Bad(e.ncomp = Components(e.d) /\ e.nel = e.elref, "an open shell is simulated with both spins, every electron of the molecule is there")
  \cup Bad(e.shape[1] = <<4, e.nao, e.elref[1]>> /\ (e.ncomp = 2 => e.shape[2] = <<4, e.nao, e.elref[2]>>), "an open shell is simulated with both spins, every electron of the molecule is there")
  \cup Bad(Close(2 * e.e1, One2(e.t), 20), "the one-body energy is that of the molecule's density, with every mode's self-energy")
  \cup Bad(Close(2 * e.e2, Two2(e.t), 20), "the two-body energy is that of the molecule's density, with every mode's self-energy")
  \cup Bad(Close(10 * e.eb, Eb10(e), 60), "the boson energy is that of the trial's bosons")
  \cup Bad(Close(100 * e.eg, Eg8(e), 30000), "the coupling energy is the dipole times the displacement of every mode")
  \cup Bad(Close(e.e, e.e1 + e.e2 + e.nuc + (IF e.d.on THEN e.eb + e.eg ELSE 0), 6), "the energy is the sum of its parts")
  \cup Bad(Close(e.nuc, e.nucref, 2), "the constant energy is that of the nuclei")
  \cup Bad(e.d.orb = "hf" /\ e.d.cav \in {"none", "zero"} => Close(e.e, e.scf, 10), "without coupling the simulation starts from the mean-field energy")
  \cup Bad(e.norm = 4000000 /\ e.copies /\ e.fresh, "every walker starts as the trial state with weight and overlap one")
  \cup Bad(e.extra = BilFields(e.d), "a decoupled bilinear coupling adds its fields, for every mode")
RunBad(e) == Bad(SameRun(e.a) = SameRun(e.b), "descriptions are valid")
  \cup Bad(CloseSeq(e.ea, e.eb, 40) /\ Len(e.ea) = e.n, "a seeded run is the same however the molecule is described")
  \cup Bad(CloseSeq(e.wa, e.wb, 20), "a seeded run is the same however the molecule is described")
SameBad(e) == Bad(SameStart(e.a) = SameStart(e.b), "descriptions are valid")
  \cup Bad(CloseSeq(e.ea, e.eb, 10), "a simulation starts from the same energies however the molecule is described")
  \cup Bad(e.a.cav = e.b.cav => CloseSeq(e.pa, e.pb, 20), "the trial's bosons are the same however the molecule is described")
SetupFailing(e) == CASE e.kind = "start" -> StartBad(e) [] e.kind = "run" -> RunBad(e) [] e.kind = "same" -> SameBad(e)
                     [] e.kind = "failed" -> {"every valid description can be set up and run"}
=================================================================================
