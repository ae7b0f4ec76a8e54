--------------------------------- MODULE Setup ---------------------------------
(* Every history of re-descriptions of a molecule, on small integer systems: the *)
(* simulation the driver sets up has the same energies, and, where the run is    *)
(* claimed to be the same, the same expectation value of every field.            *)
EXTENDS SetupOps, Json
CONSTANTS Depth, NSys
VARIABLES d, y, moves
vars == <<d, y, moves>>
N == 3
M(a, b, c, e, f, g) == <<<<a, b, c>>, <<b, e, f>>, <<c, f, g>>>>
Hs == <<M(1, 2, 0, 0 - 1, 1, 3), M(0, 1, 2, 2, 0 - 1, 1)>>
Ls == << <<M(1, 0, 1, 2, 0, 0 - 1), M(0, 1, 0, 1, 2, 1)>>, <<M(2, 1, 0, 0 - 1, 0, 1), M(1, 0 - 1, 1, 0, 1, 0)>> >>
Gs == << <<M(0, 1, 1, 0, 0 - 1, 2), M(1, 0, 0, 1, 1, 0)>>, <<M(1, 1, 0, 2, 0, 1), M(0, 2, 1, 1, 0, 0)>> >>
Mul(a, b) == TLCEval([i \in 1..N |-> [j \in 1..N |-> SumOver(LAMBDA k : a[i][k] * b[k][j], 1, N)]])
Tr(a, b) == SumOver(LAMBDA i : SumOver(LAMBDA j : a[i][j] * b[j][i], 1, N), 1, N)
(* changes of orbitals: signed permutations <<image, sign>>                       *)
MoRot  == <<<<2, 1>>, <<3, 0 - 1>>, <<1, 1>>>>
AtRot  == <<<<3, 1>>, <<2, 1>>, <<1, 1>>>>
Turn(r, a) == TLCEval([i \in 1..N |-> [j \in 1..N |-> r[i][2] * r[j][2] * a[r[i][1]][r[j][1]]]])
Rep(e, a) == LET b == IF e.frame = "renumbered" THEN Turn(AtRot, a) ELSE a IN IF e.rep = "MO" THEN Turn(MoRot, b) ELSE b
Dens(e, spin) == LET na == IF e.mol = "h4" THEN 2 ELSE IF Open(e.mol) THEN 2 ELSE 1
                     nb == IF e.mol = "h4" THEN 0 ELSE 1  n == IF spin = 1 THEN na ELSE nb
                 IN Rep(e, [i \in 1..N |-> [j \in 1..N |-> IF i = j /\ i <= n THEN 1 ELSE 0]])
Zero == [i \in 1..N |-> [j \in 1..N |-> 0]]
Neg(a) == [i \in 1..N |-> [j \in 1..N |-> 0 - a[i][j]]]
G(e) == LET k == Modes(e.cav) IN [m \in 1..k |-> IF e.cav = "zero" THEN Zero ELSE Rep(e, Gs[y][m])]
(* the vectors of the two-electron part; a different decomposition of the same    *)
(* integrals is a rotated list of vectors                                         *)
Vec(a, s) == [m |-> a, s |-> s]
Fields(e) ==
  LET l == [i \in 1..2 |-> Rep(e, Ls[y][i])]
      g == G(e)
      chol == IF e.ints \in {"block", "mblock"} THEN <<Vec(l[2], 1), Vec(Neg(l[1]), 1)>> ELSE <<Vec(l[1], 1), Vec(l[2], 1)>>
      dse == [m \in 1..Modes(e.cav) |-> Vec(g[m], 1)]
      all == IF e.ints \in {"merged", "mblock"} THEN (IF e.cav = "zero" THEN chol ELSE [i \in 1..Len(dse) |-> Vec(Neg(dse[i].m), 1)] \o chol) ELSE chol \o dse
      per(m) == IF e.bil = 1 THEN <<Vec(g[m], 1), Vec(g[m], 0 - 1), Vec(Zero, 1)>> ELSE <<Vec(g[m], 1), Vec(g[m], 0 - 1)>>
      bil == IF BilFields(e) = 0 THEN << >> ELSE IF Modes(e.cav) = 1 THEN per(1) ELSE per(1) \o per(2)
  IN TLCEval(all \o bil)
(* spins the driver treats: with one component, twice the first                   *)
DA(e) == Dens(e, 1)
DB(e) == IF Components(e) = 1 THEN Dens(e, 1) ELSE Dens(e, 2)
Plus(a, b) == TLCEval([i \in 1..N |-> [j \in 1..N |-> a[i][j] + b[i][j]]])
Exc(a, da, db) == Tr(Mul(a, da), Mul(a, da)) + Tr(Mul(a, db), Mul(a, db))
EOne2(e) == LET g == G(e)  D == Plus(DA(e), DB(e)) IN
  2 * Tr(D, Rep(e, Hs[y])) + SumOver(LAMBDA m : Tr(D, Mul(g[m], g[m])), 1, Modes(e.cav))
ETwo2(e) == LET f == Fields(e)  D == Plus(DA(e), DB(e)) IN
  SumOver(LAMBDA n : f[n].s * (Tr(f[n].m, D) * Tr(f[n].m, D) - Exc(f[n].m, DA(e), DB(e))), 1, Len(f))
(* the same from traces of the molecule alone                                     *)
Traces(e) ==
  LET c == [e EXCEPT !.rep = "OAO", !.frame = "same"]
      da == Dens(c, 1)  db == Dens(c, 2)  D == Plus(da, db)  g == G(c)  l == Ls[y] IN
  [h |-> Tr(D, Hs[y]), j |-> SumOver(LAMBDA i : Tr(l[i], D) * Tr(l[i], D), 1, 2), k |-> SumOver(LAMBDA i : Exc(l[i], da, db), 1, 2),
   s |-> [m \in 1..Modes(e.cav) |-> Tr(D, Mul(g[m], g[m]))], mm |-> [m \in 1..Modes(e.cav) |-> Tr(g[m], D) * Tr(g[m], D)],
   x |-> [m \in 1..Modes(e.cav) |-> Exc(g[m], da, db)]]
Shifts(e) == LET f == Fields(e)  D == Plus(DA(e), DB(e)) IN [i \in 1..Len(f) |-> Tr(f[i].m, D)] \o [i \in 1..e.fake |-> 0]
(* ---- the state machine: start from the plain description, change one thing     *)
Plain(mol, cav, orb) == [mol |-> mol, cav |-> cav, orb |-> orb, obj |-> IF cav = "none" THEN "bare" ELSE "mol", rep |-> "OAO", spin |-> "default",
                         own |-> FALSE, ints |-> "chol", bil |-> 0, on |-> TRUE, frame |-> "same", fake |-> 0]
Init == /\ moves = 0 /\ y \in 1..NSys
        /\ d \in {Plain(m, c, o) : m \in {"h2", "lih", "h3", "beh", "h4"}, c \in {"none", "zero", "one", "two"}, o \in {"hf", "qed"}}
        /\ Valid(d)
Changes(e) == {[e EXCEPT !.obj = v] : v \in {"mol", "photon"}} \cup {[e EXCEPT !.rep = v] : v \in {"OAO", "MO"}}
  \cup {[e EXCEPT !.spin = v] : v \in {"default", "so", "uhf"}} \cup {[e EXCEPT !.own = TRUE]}
  \cup {[e EXCEPT !.ints = v] : v \in {"chol", "block", "merged", "mblock", "func"}} \cup {[e EXCEPT !.bil = v] : v \in 0..2}
  \cup {[e EXCEPT !.on = FALSE]} \cup {[e EXCEPT !.frame = v] : v \in {"same", "moved", "renumbered", "angstrom"}}
  \cup {[e EXCEPT !.fake = v] : v \in 0..2}
Next == /\ moves < Depth /\ moves' = moves + 1
        /\ \E e \in Changes(d) : e # d /\ Valid(e) /\ d' = e
        /\ UNCHANGED y
Spec == Init /\ [][Next]_vars
(* ---- what re-describing never changes                                          *)
Bare(e) == IF e.cav = "zero" THEN [e EXCEPT !.cav = "none", !.obj = "bare"] ELSE e
Base(e) == LET b == Bare(e) IN [Plain(b.mol, b.cav, b.orb) EXCEPT !.on = b.on]
StartOk == EOne2(d) = EOne2(Base(d)) /\ ETwo2(d) = ETwo2(Base(d)) /\ SameStart(Base(d)) = SameStart(d)
TracesOk == One2(Traces(d)) = EOne2(d) /\ Two2(Traces(d)) = ETwo2(d)
(* the plainest description with the same run                                     *)
Canon(e) == LET b == Bare(e)  r == SameRun(e) IN
  [Plain(b.mol, b.cav, b.orb) EXCEPT !.on = b.on, !.own = e.own, !.ints = r[6], !.bil = e.bil, !.frame = r[8], !.fake = r[9]]
RunOk == SameRun(Canon(d)) = SameRun(d) /\ Valid(Canon(d)) /\ Shifts(Canon(d)) = Shifts(d)
(* the descriptions differ in what they should                                    *)
OpenNeedsBoth == Open(d.mol) => Dens(d, 1) # Dens(d, 2) /\ Components(d) = 2
FieldsOk == Len(Fields(d)) = 2 + BilFields(d) + (IF d.ints \in {"merged", "mblock"} /\ d.cav = "zero" THEN 0 ELSE Modes(d.cav))
Emit == y = 1 => PrintT("CASE " \o ToJson([d |-> d, start |-> ToString(SameStart(d)), run |-> ToString(SameRun(d))]))
=================================================================================
