------------------------------- MODULE IntTrace -------------------------------
EXTENDS IntOps, Judge
Kinds2 == {"vvvv", "vvvo", "vovv", "vvoo", "oovv", "vovo", "vooo", "ooov", "oooo"}
Keys(k) == CASE k = "vvvv" -> <<"v", "v", "v", "v">> [] k = "vvvo" -> <<"v", "v", "v", "o">> [] k = "vovv" -> <<"v", "o", "v", "v">> [] k = "vvoo" -> <<"v", "v", "o", "o">>
             [] k = "oovv" -> <<"o", "o", "v", "v">> [] k = "vovo" -> <<"v", "o", "v", "o">> [] k = "vooo" -> <<"v", "o", "o", "o">> [] k = "ooov" -> <<"o", "o", "o", "v">> [] OTHER -> <<"o", "o", "o", "o">>
Half(w) == w
SysFailing(e) ==
  IF e.oc # "ok" THEN {"the integrals can be built"} ELSE
  LET y == e.y  c == e.c  n == NMo(c)  no == e.no  d == Dens(c, no)
      f == MoMat(Fock(y, e.b, d), c)
      gm == TLCEval([m \in 1..NM(y) |-> MoMat(y.g[m], c)])
  IN UNION { (IF e.full = a THEN {} ELSE {"two-electron integrals are antisymmetrised and include every mode's self-energy"})
           \cup (IF \A k \in Kinds2 : e.i[k] = Block2(a, Keys(k), n, no) THEN {} ELSE {"integral blocks are those of occupied and virtual spin orbitals"})
           : a \in {AntiAll(MoEri(y, c), n)} }
     \cup (IF e.f.oo = Block1(f, "o", "o", n, no) /\ e.f.ov = Block1(f, "o", "v", n, no) /\ e.f.vo = Block1(f, "v", "o", n, no) /\ e.f.vv = Block1(f, "v", "v", n, no) THEN {} ELSE {"Fock blocks are the mean field's"})
     \cup (IF \A m \in 1..NM(y) : \A k \in {<<"o", "o">>, <<"o", "v">>, <<"v", "o">>, <<"v", "v">>} :
                 e.g[k[1] \o k[2]][m] = [i \in 1..Len(Which(k[1], n, no)) |-> [j \in 1..Len(Which(k[2], n, no)) |-> e.b.rt[m] * Block1(gm[m], k[1], k[2], n, no)[i][j]]]
           THEN {} ELSE {"coupling blocks carry each mode's own bilinear factor"})
     \cup (IF \A m \in 1..NM(y) : e.mfg[m] = e.b.rt[m] * Tr2(y.g[m], d) THEN {} ELSE {"mean-field couplings are the density's"})
IntFailing(e) ==
  CASE e.op = "system" -> SysFailing(e)
    [] e.op = "blocks" ->     \* splitting a tensor into named blocks, entries are their own indices
         IF e.oc # "ok" THEN {"a tensor can be split into blocks"} ELSE
         (IF \A k \in DOMAIN e.blk : \A i \in 1..Len(e.blk[k]) : \A j \in 1..Len(e.blk[k][i]) : \A u \in 1..Len(e.blk[k][i][j]) : \A w \in 1..Len(e.blk[k][i][j][u]) :
              e.blk[k][i][j][u][w] = (1000 * (i - 1 + e.off[k][1])) + (100 * (j - 1 + e.off[k][2])) + (10 * (u - 1 + e.off[k][3])) + (w - 1 + e.off[k][4]) THEN {} ELSE {"every block has its own entries"})
         \cup (IF \A k \in DOMAIN e.blk : e.dim[k] = e.want[k] THEN {} ELSE {"every block has its own shape"})
    [] e.op = "same" -> IF e.oc = "ok" /\ \A k \in 1..Len(e.v) : Abs(e.v[k] - e.v[1]) <= e.tol THEN {} ELSE {e.what}
    [] OTHER -> {"unknown event"}
===============================================================================
