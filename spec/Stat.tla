-------------------------------- MODULE Stat --------------------------------
(* Every short integer series: what makes the error estimate meaningful.        *)
EXTENDS StatOps, Json
CONSTANTS Vals, MaxN, Extra
VARIABLES x
Init == x = << >>
Next == Len(x) < MaxN /\ \E v \in Vals : x' = Append(x, v)
Spec == Init /\ [][Next]_x
Some == x # << >>
Bounded == Some => \A a \in {Acf(x)} : a[1] = Norm(x) /\ Norm(x) > 0 /\ \A k \in 1..N(x) : Abs(a[k]) <= a[1]
Cancels == (Some /\ ~Constant(x)) => Times(x)[N(x)] = 0
HasWindow == Some => Windows(x, 5) # {}
GoodBlocks == Some => Blocks(x, 5) # {} /\ \A b \in Blocks(x, 5) : b >= 1 /\ b <= N(x)
Affine == Some => LET z == [i \in 1..N(x) |-> (2 * x[i]) + Extra]  r == [i \in 1..N(x) |-> x[N(x) + 1 - i]] IN
   /\ \A k \in 1..N(x) : (Acf(z)[k] * Norm(x)) = (Acf(x)[k] * Norm(z)) /\ Acf(r)[k] = Acf(x)[k]
   /\ Blocks(z, 5) = Blocks(x, 5)
   /\ \A i \in 1..N(x) : (Out(z, i, 1) <=> Out(x, i, 1)) /\ (InQ(z, i, 1) <=> InQ(x, i, 1))
KeepsSome == Some => (\E i \in 1..N(x) : In(x, i, 2)) /\ (\E i \in 1..N(x) : InQ(x, i, 1))
Disjoint == Some => \A i \in 1..N(x) : ~(In(x, i, 1) /\ Out(x, i, 1))
Emit == Some => PrintT("CASE " \o ToJson([x |-> x]))
===============================================================================
