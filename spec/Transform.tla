----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* Column and row transformations: what a transformation configured with a  *)
(* matrix does to a matrix.                                                 *)
(***************************************************************************)
EXTENDS Obs

Constant(v) == \A k \in 1..Len(v) : FEq(v[k], v[1])
\* deviation with divisor n-1; one for constant data
Dev1(v) == IF Constant(v) THEN F1 ELSE VStd(v)
Devs1(A) == LET B == MT(A) IN Force([j \in 1..NC(A) |-> Dev1(B[j])])

CenterOf(cfg, X) == SubRowVec(X, ColMeans(cfg))
StandardizeOf(cfg, X) == DivRowVec(SubRowVec(X, ColMeans(cfg)), Devs1(cfg))
RowNormOf(X) == Force([i \in 1..NR(X) |-> LET m == VMean(X[i])  d == Dev1(X[i]) IN
                         [j \in 1..NC(X) |-> FDiv(FSub(X[i][j], m), d)]])
LogOf(X, base, off) == MMap(X, LAMBDA x : FDiv(FLn(FAdd(x, off)), FLn(base)))
LogDefined(X, off) == \A i \in 1..NR(X) : \A j \in 1..NC(X) : FLt(F0, FAdd(X[i][j], off))

\* linear-interpolated quantile num/den of the sorted sequence s
QuantileOf(s, num, den) ==
    LET p == (Len(s) - 1) * num
        k == p \div den
        f == FRat(p % den, den)
    IN IF k + 1 >= Len(s) THEN s[Len(s)]
       ELSE FAdd(s[k + 1], FMul(f, FSub(s[k + 2], s[k + 1])))
\* median and range between the quantiles lo and hi (in units of 1/1000)
RobustOf(cfg, X, centre, scale, lo, hi) ==
    LET B == MT(cfg)
        S == Force([j \in 1..Len(B) |-> VSortAsc(B[j])])
        c == Force([j \in 1..Len(B) |-> IF centre THEN VMedian(B[j]) ELSE F0])
        d == Force([j \in 1..Len(B) |-> IF ~scale THEN F1
                        ELSE LET w == FSub(QuantileOf(S[j], hi, 1000), QuantileOf(S[j], lo, 1000)) IN
                             IF FLe(w, FTen(-15)) THEN F1 ELSE w])
    IN DivRowVec(SubRowVec(X, c), d)

(***************************************************************************)
(* Power maps.  PowH(l) = (2^l - 1)/l is the image of 1 under Yeo-Johnson   *)
(* and of 2 under Box-Cox, and increases with l: it identifies the          *)
(* exponent the implementation chose.                                       *)
(***************************************************************************)
\* (x^l - 1)/l
BoxCox(x, l) == IF FLt(FAbs(l), FTen(-9)) THEN FLn(x) ELSE FDiv(FSub(FPow(x, l), F1), l)
YeoJohnson(x, l) == IF FLe(F0, x) THEN BoxCox(FAdd(F1, x), l) ELSE FNeg(BoxCox(FSub(F1, x), FSub(F2, l)))
PowH(l) == BoxCox(F2, l)
ExponentFor(y) ==
    LET RECURSIVE G(_, _, _)
        G(a, b, n) == LET m == FDiv(FAdd(a, b), F2) IN
                      IF n = 0 THEN m ELSE IF FLt(PowH(m), y) THEN G(m, b, n - 1) ELSE G(a, m, n - 1)
    IN G(FInt(-40), FInt(40), 60)
PowerMap(method, x, l) == IF method = "box-cox" THEN BoxCox(x, l) ELSE YeoJohnson(x, l)
VarPop(v) == LET m == VMean(v) IN FDiv(FSum(Force([k \in 1..Len(v) |-> FSqr(FSub(v[k], m))])), FInt(Len(v)))
\* profile log-likelihood of the exponent l for the column v
PowerLik(method, v, l) ==
    LET y == Force([k \in 1..Len(v) |-> PowerMap(method, v[k], l)])
        j == FSum(Force([k \in 1..Len(v) |->
               IF method = "box-cox" THEN FLn(v[k])
               ELSE IF FLe(F0, v[k]) THEN FLn(FAdd(F1, v[k])) ELSE FNeg(FLn(FSub(F1, v[k])))]))
    IN FAdd(FMul(FRat(-Len(v), 2), FLn(VarPop(y))), FMul(FSub(l, F1), j))
StandardizePop(cfg, X) ==
    LET B == MT(cfg)
        m == ColMeans(cfg)
        d == Force([j \in 1..Len(B) |-> FSqrt(VarPop(B[j]))])
    IN DivRowVec(SubRowVec(X, m), d)

(***************************************************************************)
(* Quantile maps.                                                           *)
(***************************************************************************)
\* distribution function of the standard normal
NormalCdf(x) ==
    LET q == FSqr(x)
        RECURSIVE G(_, _, _)
        G(t, k, acc) == IF k > 260 THEN acc
                        ELSE LET u == FDiv(FMul(t, q), FInt(2 * k + 1)) IN G(u, k + 1, FAdd(acc, u))
        s == IF FEq(x, F0) THEN F0 ELSE G(x, 1, x)
        phi == FDiv(FExp(FDiv(q, FInt(-2))), FSqrt(FMul(F2, FAtan2(F0, FInt(-1)))))
    IN FAdd(FRat(1, 2), FMul(phi, s))
\* the nq quantiles of the sorted column s
QuantileGrid(s, nq) == Force([k \in 1..nq |-> IF nq = 1 THEN s[1] ELSE QuantileOf(s, k - 1, nq - 1)])
\* sandwich: the level of x is between that of the last smaller and the first larger grid point
LevelOk(Q, x, u, tol) ==
    LET n == Len(Q)
        slack == FMul(FTen(-9), FAdd(F1, VMaxAbs(Q)))
        below == {k \in 1..n : FLt(Q[k], FSub(x, slack))}
        above == {k \in 1..n : FLt(FAdd(x, slack), Q[k])}
        Hi(S) == CHOOSE k \in S : \A q \in S : q <= k
        Lo(S) == CHOOSE k \in S : \A q \in S : k <= q
        lev(k) == IF n = 1 THEN F0 ELSE FRat(k - 1, n - 1)
        l == IF below = {} THEN F0 ELSE lev(Hi(below))
        h == IF above = {} THEN F1 ELSE lev(Lo(above))
    IN FLe(FSub(l, tol), u) /\ FLe(u, FAdd(h, tol))
\* strictly increasing grid: the level is the linear interpolation, 0 below and 1 above
Level(Q, x) ==
    LET n == Len(Q) IN
    IF FLe(x, Q[1]) THEN F0 ELSE IF FLe(Q[n], x) THEN F1
    ELSE LET k == CHOOSE i \in 1..(n - 1) : FLe(Q[i], x) /\ FLt(x, Q[i + 1])
         IN FAdd(FRat(k - 1, n - 1), FDiv(FDiv(FSub(x, Q[k]), FSub(Q[k + 1], Q[k])), FInt(n - 1)))
StrictlyIncreasing(Q) == \A k \in 1..(Len(Q) - 1) :
    FLt(FAdd(Q[k], FMul(FTen(-9), FAdd(F1, VMaxAbs(Q)))), Q[k + 1])
Monotone(xs, ys) == \A i, j \in 1..Len(xs) : FLt(xs[i], xs[j]) => FLe(ys[i], ys[j])
=============================================================================
