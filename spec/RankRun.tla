------------------------------- MODULE RankRun -------------------------------
(* A run on R ranks.  Every rank walks through the same program: propagate its  *)
(* own walkers, then meet the others in a sum.  Ranks interleave freely; a sum  *)
(* completes once every rank has contributed.  Whatever the interleaving and    *)
(* whatever R, every rank obtains the same ensemble value at every measurement, *)
(* and it is the value of the whole ensemble.                                   *)
EXTENDS RankOps, TLC
CONSTANTS MaxN, MaxR, Steps, Vals
VARIABLES n, R, w, pc, contrib, got, meas
vars == <<n, R, w, pc, contrib, got, meas>>
(* w[i]: contribution of walker i at the current step (abstract)               *)
Ranks == 1..R
Local(r) == SumOver(LAMBDA i : IF i \in Owned(n, R, r) THEN w[i] ELSE 0, 1, n)
Init == /\ n \in 1..MaxN /\ R \in 1..MaxR /\ R <= n
        /\ w \in [1..n -> Vals]
        /\ pc = [r \in 1..R |-> 0]          \* 2k: before step k's sum, 2k+1: waiting in it
        /\ contrib = [r \in 1..R |-> 0] /\ got = [r \in 1..R |-> <<>>] /\ meas = 0
Enter(r) == /\ pc[r] = 2 * meas /\ meas < Steps
            /\ contrib' = [contrib EXCEPT ![r] = Local(r)]
            /\ pc' = [pc EXCEPT ![r] = 2 * meas + 1]
            /\ UNCHANGED <<n, R, w, got, meas>>
Complete == /\ meas < Steps /\ \A r \in Ranks : pc[r] = 2 * meas + 1
            /\ LET s == SumOver(LAMBDA r : contrib[r], 1, R) IN
                 got' = [r \in Ranks |-> Append(got[r], s)]
            /\ meas' = meas + 1 /\ pc' = [r \in Ranks |-> 2 * (meas + 1)]
            /\ UNCHANGED <<n, R, w, contrib>>
Next == Complete \/ \E r \in Ranks : Enter(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* properties *)
PartitionOK == /\ UNION {Owned(n, R, r) : r \in Ranks} = 1..n
               /\ \A a, b \in Ranks : a # b => Owned(n, R, a) \cap Owned(n, R, b) = {}
               /\ \A a, b \in Ranks : Abs(Share(n, R, a) - Share(n, R, b)) <= 1
Agree    == \A a, b \in Ranks : got[a] = got[b]
IsWhole  == \A r \in Ranks : \A k \in 1..Len(got[r]) : got[r][k] = SumOver(LAMBDA i : w[i], 1, n)
LockStep == \A a, b \in Ranks : Abs(pc[a] - pc[b]) <= 1
Finishes == <>(meas = Steps)
===============================================================================
