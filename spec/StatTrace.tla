------------------------------ MODULE StatTrace ------------------------------
EXTENDS StatOps, Judge
Clause(ok, name) == IF ok THEN {} ELSE {name}
Bad(e, name) == IF e.oc # "ok" THEN {name} ELSE {}
StatFailing(e) ==
  IF e.oc # "ok" THEN {e.op \o ": every series can be analysed"} ELSE
  CASE e.op = "mean" ->    \* mean and deviation of the last part
         LET m == Max2(1, N(e.x) \div e.n)  t == SubSeq(e.x, (N(e.x) - m) + 1, N(e.x)) IN
         Clause(e.mean = Total(t) /\ e.m = m, "mean of the last part of the run") \cup Clause(e.var2 = Var2(t), "standard deviation of the last part of the run")
    [] e.op = "acf" -> Clause(e.acf = Acf(e.x) /\ e.norm = Norm(e.x), "autocorrelation at every lag, one at lag zero")
    [] e.op = "time" -> LET t == Times(e.x) IN Clause(e.norm = Norm(e.x) /\ \E k \in Windows(e.x, e.c) : e.time = t[k], "integrated time up to the first self-consistent window")
    [] e.op = "zscore" ->
         Clause(\A i \in 1..N(e.x) : (In(e.x, i, e.th) => e.kept[i]) /\ (Out(e.x, i, e.th) => ~e.kept[i]), "only points beyond the threshold are removed")
         \cup Clause(e.order, "remaining points keep their order")
    [] e.op = "iqr" ->
         Clause(\A i \in 1..N(e.x) : e.kept[i] = InQ(e.x, i, e.th), "only points beyond the threshold are removed")
         \cup Clause(e.order, "remaining points keep their order")
    [] e.op = "blocked" ->
         LET z == e.x  b == e.b  nb == N(z) \div b  s == BlockSums(z, b) IN
         Clause(b \in Blocks(z, 5), "blocks as long as the autocorrelation time")
         \cup Clause(e.nb = nb /\ nb >= 1, "as many blocks as fit")
         \cup Clause(e.mean = SumSeq(s), "mean of the blocks")
         \cup Clause(e.err2 = (nb * Sq(s)) - (SumSeq(s) * SumSeq(s)), "error of the mean of independent blocks")
    [] OTHER -> {"unknown event"}
===============================================================================
