------------------------------- MODULE Utils -------------------------------
(***************************************************************************)
(* Numeric utilities: index sort, regression line, maximum, formatting.     *)
(***************************************************************************)
EXTENDS Obs

IsPermutation(p, n) == Len(p) = n /\ {p[k] : k \in 1..Len(p)} = 0..(n - 1)
OrdersAscending(p, xs) == \A k \in 1..(Len(p) - 1) : FLe(xs[p[k] + 1], xs[p[k + 1] + 1])

\* the least-squares line leaves residuals that are orthogonal to 1 and x
Residuals(xs, ys, a, b) == Force([k \in 1..Len(xs) |-> FSub(ys[k], FAdd(a, FMul(b, xs[k])))])
LeastSquares(xs, ys, a, b, tol) ==
    LET r == Residuals(xs, ys, a, b)
        mx == VMaxAbs(xs)
        my == FAdd(VMaxAbs(ys), FAdd(FAbs(a), FMul(FAbs(b), mx)))
        n == FInt(Len(xs))
    IN /\ FLe(FAbs(FSum(r)), FMul(tol, FMul(n, my)))
       /\ FLe(FAbs(FDot(r, xs)), FMul(tol, FMul(n, FMul(my, mx))))

FirstMax(xs) == CHOOSE k \in 1..Len(xs) : /\ \A j \in 1..Len(xs) : FLe(xs[j], xs[k])
                                          /\ \A j \in 1..(k - 1) : FLt(xs[j], xs[k])

\* fixed-point text, given as character codes: [-]digits[.digits]
Digit(c) == c \in 48..57
Unsigned(cs) == IF cs # <<>> /\ cs[1] \in {43, 45} THEN Tail(cs) ELSE cs
Neg(cs)      == cs # <<>> /\ cs[1] = 45
DotAt(cs)    == LET d == {k \in 1..Len(cs) : cs[k] = 46} IN IF d = {} THEN Len(cs) + 1 ELSE CHOOSE k \in d : \A j \in d : k <= j
WellFormed(cs) == LET u == Unsigned(cs)  p == DotAt(u) IN
                  p > 1 /\ \A k \in 1..Len(u) : k = p \/ Digit(u[k])
Decimals(cs) == LET u == Unsigned(cs)  p == DotAt(u) IN IF p > Len(u) THEN 0 ELSE Len(u) - p
\* the digits as one whole number (decimal point removed)
RECURSIVE Whole(_, _)
Whole(cs, acc) == IF cs = <<>> THEN acc
                  ELSE IF cs[1] = 46 THEN Whole(Tail(cs), acc)
                  ELSE Whole(Tail(cs), FAdd(FMul(acc, FInt(10)), FInt(cs[1] - 48)))
Scaled(cs) == LET w == Whole(Unsigned(cs), F0) IN IF Neg(cs) THEN FNeg(w) ELSE w
\* |10^d x - N| <= 1/2 (with a relative allowance for the scaling itself)
FixedPointOf(cs, x, d) ==
    /\ WellFormed(cs) /\ Decimals(cs) = d
    /\ LET y == FMul(x, FTen(d)) IN FLe(FAbs(FSub(y, Scaled(cs))), FAdd(FRat(1, 2), FMul(Eps(12), FAbs(y))))
=============================================================================
