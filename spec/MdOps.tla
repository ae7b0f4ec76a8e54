-------------------------------- MODULE MdOps --------------------------------
(* Output directories of a dynamics run, its integrators and its book-keeping, *)
(* as functions.  A trajectory has an "md" and a "qm_log" directory; files are  *)
(* identified by numbers.                                                       *)
EXTENDS Arith, TLC
Dir(p, f) == [here |-> p, files |-> f]
NoTraj == [md |-> Dir(FALSE, {}), qm |-> Dir(FALSE, {}), aside |-> {}]
All(t) == t.md.files \cup t.qm.files \cup t.aside
(* a fresh run sets what an earlier run left aside; an appended one keeps it    *)
Fresh(t, log) == [md |-> Dir(TRUE, {}), qm |-> Dir(log, {}), aside |-> All(t)]
Resume(t, log) == [t EXCEPT !.qm.here = @ \/ log]
Known == {"none", "write", "append"}
Accepts(ts, opt) == opt \in Known /\ (opt = "append" => \A i \in 1..Len(ts) : ts[i].md.here)
Started(ts, opt, log) ==
  IF ~Accepts(ts, opt) THEN ts
  ELSE [i \in 1..Len(ts) |-> IF opt = "append" THEN Resume(ts[i], log) ELSE Fresh(ts[i], log)]
(* the run writes file id into its md directory and id + 1 into its log         *)
Written(ts, id) ==
  [i \in 1..Len(ts) |->
     [ts[i] EXCEPT !.md.files = IF ts[i].md.here THEN @ \cup {id + 2 * i} ELSE @,
                   !.qm.files = IF ts[i].qm.here THEN @ \cup {id + 2 * i + 1} ELSE @]]
(* ---- the classical Runge-Kutta step: y' = F(c, t, y), step 2h; thrice the    *)
(* increment                                                                    *)
Rhs(c, t, y) == c[1] + (c[2] * t) + (c[3] * t * t) + (c[4] * y) + (c[5] * t * y) + (c[6] * t * t * t)
RkInc(c, t, y, h) ==
  LET k1 == Rhs(c, t, y)
      k2 == Rhs(c, t + h, y + (h * k1))
      k3 == Rhs(c, t + h, y + (h * k2))
      k4 == Rhs(c, t + (2 * h), y + (2 * h * k3))
  IN h * (k1 + (2 * k2) + (2 * k3) + k4)
(* ---- velocity Verlet: acc is the integer acceleration, the step is 2h         *)
Drift(x, v, h) == [i \in 1..Len(x) |-> [d \in 1..Len(x[i]) |-> x[i][d] + (2 * h * v[i][d])]]
Kick(v, acc, h) == [i \in 1..Len(v) |-> [d \in 1..Len(v[i]) |-> v[i][d] + (h * acc[i][d])]]
(* twice the kinetic energy                                                      *)
Kin2(m, v) == SumOver(LAMBDA i : m[i] * SumOver(LAMBDA d : v[i][d] * v[i][d], 1, Len(v[i])), 1, Len(v))
===============================================================================
