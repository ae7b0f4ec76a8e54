-------------------------------- MODULE Fixed --------------------------------
(* Fixed-point real and complex arithmetic with four decimals, and matrices of  *)
(* complex fixed-point numbers (sequences of rows of <<re, im>>).               *)
EXTENDS Arith, TLC
S == 10000
Only(set) == CHOOSE r \in set : TRUE
RDiv(a, b) == ((2 * a) + b) \div (2 * b)              \* rounded, b > 0
(* the larger factor is split into whole and fractional part                    *)
FMulS(x, y) == IF Abs(y) >= 100000 \/ (Abs(x) \div S) * (Abs(y) \div S + 1) >= 100000 THEN NOTINT
               ELSE (x \div S) * y + RDiv((x % S) * y, S)
FMul(a, b) == IF Abs(a) < 32000 /\ Abs(b) < 32000 THEN RDiv(a * b, S)
              ELSE IF Abs(a) >= Abs(b) THEN FMulS(a, b) ELSE FMulS(b, a)
FDivP(a, b) == IF b < 100000 THEN (IF a \div b > 200000 THEN NOTINT ELSE (a \div b) * S + RDiv((a % b) * S, b))
               ELSE IF a \div (b \div 100) > 20000000 THEN NOTINT ELSE (a \div (b \div 100)) * 100
FDiv(a, b) == IF b = 0 THEN NOTINT ELSE (IF (a < 0) = (b < 0) THEN 1 ELSE -1) * FDivP(Abs(a), Abs(b))
(* square root of a fixed-point number                                          *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= n \div m THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
FSqrt(a) == Only({IF u < 200000 THEN Root(u * S, 0, 46000) ELSE 100 * Root(u, 0, 46000) : u \in {a}})
LN2 == 6931
RECURSIVE FLnR(_, _)
FLnR(x, k) == IF x > 14142 THEN Only({FLnR(u, k + 1) : u \in {RDiv(x, 2)}})
              ELSE IF x < 7071 THEN Only({FLnR(u, k - 1) : u \in {2 * x}})
              ELSE LET y == FDiv(x - S, x + S)  y2 == FMul(y, y)  y3 == FMul(y, y2)  y5 == FMul(y3, y2)
                   IN RDiv(k * 69315, 10) + 2 * (y + RDiv(y3, 3) + RDiv(y5, 5))
FLn(x) == Only({IF u <= 0 THEN -200000 ELSE FLnR(u, 0) : u \in {x}})
RECURSIVE FExpT(_, _, _)
FExpT(x, t, n) == IF n > 8 THEN 0 ELSE t + Only({FExpT(x, t1, n + 1) : t1 \in {RDiv(FMul(t, x), n)}})
RECURSIVE FExp0(_)
RECURSIVE FExp(_)
FExp0(x) == IF x > 100000 THEN NOTINT ELSE IF x < -150000 THEN 0 ELSE IF x > 3466 THEN 2 * FExp(x - 6931) ELSE IF x < -3466 THEN RDiv(FExp(x + 6931), 2) ELSE FExpT(x, S, 1)
FExp(x) == Only({FExp0(u) : u \in {x}})
PI2 == 62832
(* cosine of a fixed-point angle                                                *)
FCosS(x) == Only({S - RDiv(FMul(x2, S - RDiv(FMul(x2, S - RDiv(FMul(x2, S - RDiv(FMul(x2, S - RDiv(x2, 90)), 56)), 30)), 12)), 2) : x2 \in {FMul(x, x)}})
FCos(x) == LET r == x % PI2 IN                      \* 0 <= r < 2 pi
           IF r <= 15708 THEN FCosS(r) ELSE IF r <= 47124 THEN -FCosS(Abs(31416 - r)) ELSE FCosS(Abs(62832 - r))
FSin(x) == FCos(x - 15708)
(* ------------------------------- complex ----------------------------------- *)
XZ == <<0, 0>>
X1 == <<S, 0>>
XI == <<0, S>>
XAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
XSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
XMul(a, b) == Only({<<FMul(u[1], v[1]) - FMul(u[2], v[2]), FMul(u[1], v[2]) + FMul(u[2], v[1])>> : u \in {a}, v \in {b}})
XConj(a) == <<a[1], -a[2]>>
XScale(r, a) == Only({<<FMul(x, u[1]), FMul(x, u[2])>> : x \in {r}, u \in {a}})
XDivInt(a, n) == <<RDiv(a[1], n), RDiv(a[2], n)>>
XNorm2(a) == Only({FMul(u[1], u[1]) + FMul(u[2], u[2]) : u \in {a}})
XAbs(a) == FSqrt(XNorm2(a))
XDiv(a, b) == Only({<<FDiv(p[1], n), FDiv(p[2], n)>> : n \in {XNorm2(b)}, p \in {XMul(a, XConj(b))}})
XExp(a) == XScale(FExp(a[1]), <<FCos(a[2]), FSin(a[2])>>)
RECURSIVE XSum(_, _, _)
XSum(F(_), lo, hi) == IF lo > hi THEN XZ ELSE XAdd(F(lo), XSum(F, lo + 1, hi))
(* ------------------------------- matrices ----------------------------------- *)
(* Arguments are bound as elements of singleton sets: TLC then evaluates each   *)
(* of them once.                                                                *)
XMM(a, b) == Only({TLCEval([i \in 1..Len(u) |-> [j \in 1..Len(v[1]) |-> XSum(LAMBDA p : XMul(u[i][p], v[p][j]), 1, Len(v))]]) : u \in {a}, v \in {b}})
XAdjM(a, b) == Only({TLCEval([i \in 1..Len(u[1]) |-> [j \in 1..Len(v[1]) |-> XSum(LAMBDA p : XMul(XConj(u[p][i]), v[p][j]), 1, Len(u))]]) : u \in {a}, v \in {b}})
XMAdd(a, b) == Only({TLCEval([i \in 1..Len(u) |-> [j \in 1..Len(u[1]) |-> XAdd(u[i][j], v[i][j])]]) : u \in {a}, v \in {b}})
XMScale(c, a) == Only({TLCEval([i \in 1..Len(u) |-> [j \in 1..Len(u[1]) |-> XMul(z, u[i][j])]]) : z \in {c}, u \in {a}})
XMDivInt(a, k) == Only({TLCEval([i \in 1..Len(u) |-> [j \in 1..Len(u[1]) |-> XDivInt(u[i][j], k)]]) : u \in {a}})
XMZero(n, m) == TLCEval([i \in 1..n |-> [j \in 1..m |-> XZ]])
XMId(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN X1 ELSE XZ]])
RECURSIVE XMSum(_, _, _, _)
XMSum(F(_), lo, hi, n) == IF lo > hi THEN XMZero(n, n) ELSE XMAdd(F(lo), XMSum(F, lo + 1, hi, n))
XDet0(m) == IF Len(m) = 1 THEN m[1][1]
           ELSE IF Len(m) = 2 THEN XSub(XMul(m[1][1], m[2][2]), XMul(m[1][2], m[2][1]))
           ELSE XSum(LAMBDA c : LET k1 == IF c = 1 THEN 2 ELSE 1   k2 == IF c = 3 THEN 2 ELSE 3
                                    mi == XSub(XMul(m[2][k1], m[3][k2]), XMul(m[2][k2], m[3][k1]))
                                IN XMul(IF c = 2 THEN XSub(XZ, m[1][c]) ELSE m[1][c], mi), 1, 3)
XDet(m) == Only({XDet0(u) : u \in {m}})
(* sum_{k<=n} M^k/k! applied to t                                               *)
RECURSIVE XExpR(_, _, _, _)
XExpR(M, t, k, n) == IF k > n THEN t ELSE Only({XMAdd(t, XExpR(M, t1, k + 1, n)) : t1 \in {XMDivInt(XMM(M, t), k)}})
XExpAct(M, t, k, n) == Only({XExpR(u, v, k, n) : u \in {M}, v \in {t}})
XNear(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
XMNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : XNear(a[i][j], b[i][j], tol)
===============================================================================
