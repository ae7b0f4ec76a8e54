------------------------------- MODULE CCTrace --------------------------------
EXTENDS CCOps, Judge
CCFailing(e) ==
  CASE e.op = "residual" ->
       IF e.oc # "ok" THEN {"the equations can be evaluated"} ELSE
       LET y == e.y IN UNION {
          (IF "t1" \in DOMAIN e.r => e.r.t1 = Singles(y, r, NoPh(y)) THEN {} ELSE {"singles residual"})
     \cup (IF "t2" \in DOMAIN e.r => e.r.t2 = Pairs(y, r, NoPh(y)) THEN {} ELSE {"doubles residual"})
     \cup (IF "s1" \in DOMAIN e.r => \A m \in 1..y.nm : e.r.s1[m] = r[Ref(y)][Ph1(y, m)] THEN {} ELSE {"one-photon residual"})
     \cup (IF "s2" \in DOMAIN e.r => \A m, k \in 1..y.nm : e.r.s2[m][k] = r[Ref(y)][Ph2(y, m, k)] THEN {} ELSE {"two-photon residual"})
     \cup (IF "u11" \in DOMAIN e.r => \A m \in 1..y.nm : e.r.u11[m] = Singles(y, r, Ph1(y, m)) THEN {} ELSE {"singles with one photon residual"})
     \cup (IF "u12" \in DOMAIN e.r => \A m, k \in 1..y.nm : e.r.u12[m][k] = Singles(y, r, Ph2(y, m, k)) THEN {} ELSE {"singles with two photons residual"})
     \cup (IF "u21" \in DOMAIN e.r => \A m \in 1..y.nm : e.r.u21[m] = Pairs(y, r, Ph1(y, m)) THEN {} ELSE {"doubles with one photon residual"})
     \cup (IF "u22" \in DOMAIN e.r => \A m, k \in 1..y.nm : e.r.u22[m][k] = Pairs(y, r, Ph2(y, m, k)) THEN {} ELSE {"doubles with two photons residual"})
     \cup (IF DOMAIN e.r = {e.want[k] : k \in 1..Len(e.want)} THEN {} ELSE {"every residual is returned"})
     \cup (IF e.kept THEN {} ELSE {"inputs are left as they were"})
          : r \in {Residual(y)}}
    [] OTHER -> {"unknown event"}
===============================================================================
