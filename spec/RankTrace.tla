------------------------------ MODULE RankTrace ------------------------------
(* Judges recorded multi-rank runs of the real driver.                          *)
EXTENDS RankOps, Judge
Tol == 20
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], Tol)
Split(e) ==       \* n, size, counts (per rank lists), displs, sizes (per rank lists of array lengths)
  (IF \E r \in 1..e.size : e.counts[r] # [q \in 1..e.size |-> Share(e.n, e.size, q)]
   THEN {"every rank knows how many walkers each rank has"} ELSE {})
  \cup (IF \E r \in 1..e.size : e.displs[r] # [q \in 1..e.size |-> Offset(e.n, e.size, q)]
        THEN {"every rank knows where each rank's walkers start"} ELSE {})
  \cup (IF \E r \in 1..e.size : \E k \in 1..Len(e.sizes[r]) : e.sizes[r][k] # Share(e.n, e.size, r)
        THEN {"a rank's per-walker data has one entry per walker it owns"} ELSE {})
  \cup (IF \E r \in 1..e.size : e.globaln[r] # e.n THEN {"every rank knows the size of the whole population"} ELSE {})
Run(e) ==         \* energy/eshift/weights of R ranks and of one rank, same random fields
  IF \E r \in 1..Len(e.outcome) : e.outcome[r] # "ok" THEN {"the run completes on every rank"}
  ELSE
  (IF \E r \in 1..e.size : ~Same(e.energy[r], e.energy[1]) \/ ~Same(e.shift[r], e.shift[1])
   THEN {"all ranks report the same energies"} ELSE {})
  \cup (IF ~Same(e.energy[1], e.ref_energy) THEN {"energies do not depend on the number of ranks"} ELSE {})
  \cup (IF ~Same(e.parts[1], e.ref_parts) THEN {"energy components do not depend on the number of ranks"} ELSE {})
  \cup (IF ~Same(e.shift[1], e.ref_shift) THEN {"the energy shift does not depend on the number of ranks"} ELSE {})
  \cup (IF ~Same(e.weights, e.ref_weights) THEN {"walker weights do not depend on the number of ranks"} ELSE {})
  \cup (IF ~Same(e.rawnorm, [r \in 1..e.size |-> e.ref_rawnorm]) THEN {"the raw norm is that of the whole ensemble"} ELSE {})
Seeds(e) ==       \* two runs from different process states, same seed, and one with another seed
  IF \E r \in 1..Len(e.outcome) : e.outcome[r] # "ok" THEN {"the run completes on every rank"}
  ELSE
  (IF e.energy_a # e.energy_b THEN {"the same seed reproduces the run"} ELSE {})
  \cup (IF e.energy_a = e.energy_c THEN {"a different seed gives a different run"} ELSE {})
  \cup (IF \E i, j \in 1..Len(e.walkers) : i < j /\ e.walkers[i] = e.walkers[j]
        THEN {"walkers on different ranks sample independently"} ELSE {})
RFailing(e) == CASE e.kind = "split" -> Split(e)
                 [] e.kind = "run"   -> Run(e)
                 [] e.kind = "seeds" -> Seeds(e)
===============================================================================
