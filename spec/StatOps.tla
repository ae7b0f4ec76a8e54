------------------------------- MODULE StatOps -------------------------------
(* Statistics of an integer series x: autocorrelation, window, blocks, outliers. *)
(* All quantities exact: deviations are scaled by the length.                    *)
EXTENDS Arith, TLC
One(S) == CHOOSE v \in S : TRUE
N(x) == Len(x)
Total(x) == SumSeq(x)
Dev(x) == LET t == Total(x) IN TLCEval([i \in 1..N(x) |-> (N(x) * x[i]) - t])
(* a[k+1] = lag sum at lag k *)
Lags(x) == One({TLCEval([k \in 1..N(x) |-> SumOver(LAMBDA i : d[i] * d[i + k - 1], 1, (N(x) - k) + 1)]) : d \in {Dev(x)}})
Constant(x) == \A i \in 1..N(x) : x[i] = x[1]
(* normalised autocorrelation as numerators over Norm *)
Norm(x) == IF Constant(x) THEN 1 ELSE Lags(x)[1]
Acf(x) == IF Constant(x) THEN [k \in 1..N(x) |-> IF k = 1 THEN 1 ELSE 0] ELSE Lags(x)
(* integrated time summed to lag k-1, over Norm *)
Times(x) == One({TLCEval([k \in 1..N(x) |-> (2 * SumOver(LAMBDA j : a[j], 1, k)) - a[1]]) : a \in {Acf(x)}})
(* windows: first lag with lag >= c * time; an exact tie may be rounded either way *)
Windows(x, c) == IF Constant(x) THEN {1} ELSE One({{k \in 1..N(x) : ((k - 1) * nm) >= (c * t[k]) /\ \A j \in 1..(k - 1) : ((j - 1) * nm) <= (c * t[j])} : t \in {Times(x)}, nm \in {Norm(x)}})
Window(x, c) == CHOOSE k \in Windows(x, c) : \A j \in Windows(x, c) : k <= j
(* block lengths: ceiling of the time, at least one; an exact integer may be rounded up *)
BlockOf(t, nm) == {Max2(1, CeilDiv(t, nm))} \cup (IF (t % nm) = 0 THEN {Max2(1, (t \div nm) + 1)} ELSE {})
Blocks(x, c) == IF Constant(x) THEN {1} ELSE One({UNION {BlockOf(t[k], nm) : k \in Windows(x, c)} : t \in {Times(x)}, nm \in {Norm(x)}})
BlockSums(x, b) == [i \in 1..(N(x) \div b) |-> SumOver(LAMBDA j : x[((i - 1) * b) + j], 1, b)]
Sq(s) == SumOver(LAMBDA i : s[i] * s[i], 1, Len(s))
(* numerators: n^2 variance; the error of the mean squared times nb^3 b^2        *)
Var2(x) == (N(x) * Sq(x)) - (Total(x) * Total(x))
(* outliers: more than th standard deviations from the mean                      *)
Out(x, i, th) == (((N(x) * x[i]) - Total(x)) * ((N(x) * x[i]) - Total(x))) > (th * th) * Var2(x)
In(x, i, th) == Constant(x) \/ (((N(x) * x[i]) - Total(x)) * ((N(x) * x[i]) - Total(x))) < (th * th) * Var2(x)
(* quartiles times four, by linear interpolation of the sorted series            *)
RECURSIVE Insert(_, _)
Insert(s, v) == IF s = << >> \/ v <= s[1] THEN <<v>> \o s ELSE <<s[1]>> \o Insert(Tail(s), v)
RECURSIVE Sorted(_)
Sorted(s) == IF s = << >> THEN << >> ELSE Insert(Sorted(Tail(s)), s[1])
Quart4(x, q) == One({LET pos == q * (N(x) - 1)  i == (pos \div 4) + 1  f == pos % 4 IN
                 IF f = 0 THEN 4 * s[i] ELSE (4 * s[i]) + (f * (s[i + 1] - s[i])) : s \in {Sorted(x)}})
InQ(x, i, th) == LET a == Quart4(x, 1)  b == Quart4(x, 3) IN (4 * x[i]) >= a - (th * (b - a)) /\ (4 * x[i]) <= b + (th * (b - a))
===============================================================================
