-------------------------------- MODULE PlsX --------------------------------
(***************************************************************************)
(* The other partial least squares variants.  As in Pls, a replay carries   *)
(* 'sure', the number of leading components not decided by rounding.        *)
(***************************************************************************)
EXTENDS Pls, Kernels

\* b >= floor * a for magnitudes
Sizeable(b, a) == FIsFinite(b) /\ FLe(FMul(NoiseFloor, a), b)
Sizeable4(b, a) == FIsFinite(b) /\ FLe(FMul(FTen(-4), a), b)
MFrob(A) == FSqrt(MFrobSq(A))
Grow(s, good) == IF s.sure = s.h /\ good THEN s.h + 1 ELSE s.sure

(***************************************************************************)
(* OPLS: the weight direction stays, components orthogonal to it leave X    *)
(***************************************************************************)
RECURSIVE OplsGo(_, _, _)
OplsGo(s, w, k) ==
    IF s.h = k THEN s ELSE
    LET t == MVec(s.X, w)
        p == VScale(TVec(s.X, t), FDiv(F1, FDot(t, t)))
        o == VSub(p, VScale(w, FDot(w, p)))
        wo == VUnit(o)
        to == MVec(s.X, wo)
        po == VScale(TVec(s.X, to), FDiv(F1, FDot(to, to)))
    IN OplsGo([h |-> s.h + 1, sure |-> Grow(s, Sizeable4(Norm2(o), Norm2(p)) /\ Sizeable4(Norm2(to), s.x1) /\ Sizeable4(Norm2(t), s.x1)), x1 |-> s.x1,
               X |-> MSub(s.X, Outer(to, po)), W |-> HCol(s.W, wo), T |-> HCol(s.T, to), P |-> HCol(s.P, po)], w, k)
Opls(X, y, k) == OplsGo([h |-> 0, sure |-> 0, x1 |-> MFrob(X), X |-> X, W |-> <<>>, T |-> <<>>, P |-> <<>>], VUnit(TVec(X, y)), k)
OplsClean(X, W, P) == MSub(X, MMul(MMul(X, W), MT(P)))

(***************************************************************************)
(* Domain invariant PLS                                                     *)
(***************************************************************************)
Proj(t, X) == VScale(TVec(X, t), FDiv(F1, FDot(t, t)))
RECURSIVE DiplsGo(_, _, _)
DiplsGo(s, par, k) ==
    IF s.h = k THEN s ELSE
    LET p == NC(s.X)
        yy == FDot(s.y, s.y)
        Gap == MSub(MScale(MMul(MT(s.Xs), s.Xs), FRat(1, par.ns - 1)), MScale(MMul(MT(s.Xt), s.Xt), FRat(1, par.nt - 1)))
        A == MAdd(MId(p), MScale(Gap, FDiv(par.lambda, FMul(F2, yy))))
        a == VScale(TVec(s.X, s.y), FDiv(F1, yy))
        Ai == MInv(A)
        w == VUnit(MVec(Ai, a))                       \* A is symmetric
        t == MVec(s.X, w)  ts == MVec(s.Xs, w)  tt == MVec(s.Xt, w)
        q == Proj(t, s.X)  qs == Proj(ts, s.Xs)  qt == Proj(tt, s.Xt)
        c == FDiv(FDot(s.y, t), FDot(t, t))
        good == /\ AllFinite(Ai) /\ FLe(FMul(MMaxAbs(A), MMaxAbs(Ai)), FTen(7))
                /\ Sizeable4(Norm2(t), s.m1) /\ Sizeable4(Norm2(ts), s.m1) /\ Sizeable4(Norm2(tt), s.m1)
                /\ Sizeable4(Norm2(s.y), s.y1) /\ Sizeable4(Norm2(TVec(s.X, s.y)), FMul(s.m1, s.y1))
    IN DiplsGo([h |-> s.h + 1, sure |-> Grow(s, good), m1 |-> s.m1, y1 |-> s.y1,
                X |-> MSub(s.X, Outer(t, q)), Xs |-> MSub(s.Xs, Outer(ts, qs)), Xt |-> MSub(s.Xt, Outer(tt, qt)), y |-> VSub(s.y, VScale(t, c)),
                T |-> HCol(s.T, t), Ts |-> HCol(s.Ts, ts), Tt |-> HCol(s.Tt, tt), P |-> HCol(s.P, q), Ps |-> HCol(s.Ps, qs), Pt |-> HCol(s.Pt, qt),
                W |-> HCol(s.W, w), c |-> Append(s.c, c)], par, k)
Dipls(X, Xs, Xt, y, par, k) ==
    DiplsGo([h |-> 0, sure |-> 0, m1 |-> MFrob(X), y1 |-> Norm2(y), X |-> X, Xs |-> Xs, Xt |-> Xt, y |-> y, T |-> <<>>, Ts |-> <<>>, Tt |-> <<>>,
             P |-> <<>>, Ps |-> <<>>, Pt |-> <<>>, W |-> <<>>, c |-> <<>>], par, k)

(***************************************************************************)
(* Sparse PLS on standardised data                                          *)
(***************************************************************************)
Soft(z, lam) ==     \* soft thresholding relative to the largest entry, signs kept
    LET m == FMul(lam, VMaxAbs(z)) IN
    Force([i \in 1..Len(z) |-> LET v == FSub(FAbs(z[i]), m) IN IF FLt(v, F0) THEN F0 ELSE IF FLt(z[i], F0) THEN FNeg(v) ELSE v])
SpDirection(X, y, lam) ==
    LET z0 == TVec(X, y)
        med == VMedian(Force([i \in 1..Len(z0) |-> FAbs(z0[i])]))
        c == Soft(VScale(z0, FDiv(F1, med)), lam)
    IN VScale(c, FDiv(F1, FDot(c, c)))
Chosen == FTen(-6)
Clear(v) == \A i \in 1..Len(v) : FIsFinite(v[i]) /\ ~(FLt(FTen(-7), FAbs(v[i])) /\ FLt(FAbs(v[i]), FTen(-5)))
SortedSet(S) == LET RECURSIVE G(_)
                    G(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o G(T \ {m})
                IN G(S)
NipPar == [cca |-> FALSE, normY |-> FALSE, tol |-> FTen(-7), maxIter |-> 500, canon |-> FALSE]
RECURSIVE SparseGo(_, _, _, _, _)
SparseGo(s, X, y, lam, k) ==
    IF s.h = k THEN s ELSE
    LET r == VSub(y, MVec(X, s.B))
        w == SpDirection(X, r, lam)
        A == SortedSet({i \in 1..NC(X) : FLt(Chosen, FAbs(w[i])) \/ FLt(Chosen, FAbs(s.B[i]))})
        XA == MCols(X, A)
        kk == IF Len(A) < s.h + 1 THEN Len(A) ELSE s.h + 1
        Xs == StandardizeOf(XA, XA)  Ys == StandardizeOf(ColVec(y), ColVec(y))
        n == Nipals(Xs, Ys, NipPar, kk)
        bA == Col(MulRowVec(MMul(Rotations(n.W, n.P), MT(n.Q)), Devs1(ColVec(y))), 1)
        B == Force([i \in 1..NC(X) |-> IF \E j \in 1..Len(A) : A[j] = i THEN bA[CHOOSE j \in 1..Len(A) : A[j] = i] ELSE F0])
        \* directions are scaled by the median covariance, which is rounding noise once most chosen columns are fitted exactly
        good == Sizeable4(VMedian(Force([i \in 1..NC(X) |-> FAbs(TVec(X, r)[i])])), s.z1) /\ Clear(w) /\ A # <<>> /\ n.sure = n.h /\ n.h = kk /\ Clear(B)
    IN IF ~(s.sure = s.h /\ Clear(w) /\ A # <<>>) THEN [s EXCEPT !.h = k, !.W = s.W] ELSE
       SparseGo([h |-> s.h + 1, sure |-> Grow(s, good), z1 |-> s.z1, B |-> B, W |-> HCol(s.W, w), A |-> A], X, y, lam, k)
Sparse(X, y, lam, k) == SparseGo([h |-> 0, sure |-> 0, z1 |-> VMaxAbs(TVec(X, y)), B |-> ZeroV(NC(X)), W |-> <<>>, A |-> <<>>], X, y, lam, k)
\* scores of a batch: project, deflate the batch by its own loadings
RECURSIVE BatchGo(_, _, _, _)
BatchGo(s, W, j, x1) ==
    IF j > NC(W) THEN s ELSE
    LET w == Col(W, j)
        t == MVec(s.X, w)
        p == Proj(t, s.X)
    IN BatchGo([h |-> j, sure |-> Grow([h |-> j - 1, sure |-> s.sure], Sizeable4(Norm2(t), FMul(x1, Norm2(w)))), X |-> MSub(s.X, Outer(t, p)), T |-> HCol(s.T, t)], W, j + 1, x1)
BatchScores(X, W) == BatchGo([h |-> 0, sure |-> 0, X |-> X, T |-> <<>>], W, 1, MFrob(X))

(***************************************************************************)
(* Partial robust M-regression                                              *)
(***************************************************************************)
Fair(z, c) == FDiv(F1, FSqr(FAdd(F1, FAbs(FDiv(z, c)))))
Abs1(v) == Force([i \in 1..Len(v) |-> FAbs(v[i])])
VShift(v, m) == Force([i \in 1..Len(v) |-> FSub(v[i], m)])
Mad(v) == VMedian(Abs1(VShift(v, VMedian(v))))
ResidualWeights(r, C) == LET sg == Mad(r) IN Force([i \in 1..Len(r) |-> Fair(FDiv(r[i], sg), C)])
Dists(X, g) == Force([i \in 1..NR(X) |-> Norm2(VSub(X[i], g))])
RECURSIVE Weiszfeld(_, _, _, _)
Weiszfeld(X, g, tol, left) ==
    IF left = 0 THEN g ELSE
    LET d == Force([i \in 1..NR(X) |-> LET x == Norm2(VSub(X[i], g)) IN IF FLt(x, FTen(-10)) THEN FInt(10) ELSE FDiv(F1, x)])
        g2 == VScale(TVec(X, d), FDiv(F1, FSum(d)))
        ch == Norm2Sq(VSub(g2, g))
    IN IF FLt(ch, tol) THEN g2 ELSE Weiszfeld(X, g2, tol, left - 1)
LeverageWeights(T, par) ==
    LET d == Dists(T, Weiszfeld(T, ColMeans(T), par.tol, par.maxIter))
        m == VMedian(d)
    IN Force([i \in 1..Len(d) |-> Fair(FDiv(d[i], m), par.C)])
ScaleRows(X, v) == Force([i \in 1..NR(X) |-> VScale(X[i], v[i])])
RootW(Wr, Wx) == Force([i \in 1..Len(Wr) |-> FSqrt(FMul(Wr[i], Wx[i]))])
KeepLargest(w, m) ==
    IF m >= Len(w) THEN w
    ELSE LET s == VSortDesc(Abs1(w)) IN Force([i \in 1..Len(w) |-> IF FLt(FAbs(w[i]), s[m]) THEN F0 ELSE w[i]])
SlimAll(W, nc) == IF nc <= 0 THEN W ELSE MT(Force([j \in 1..NC(W) |-> KeepLargest(Col(W, j), nc + 1)]))
RECURSIVE PrmGo(_, _, _, _, _)
\* documented: repeat until gamma converges; as implemented: repeat only while it has converged
PrmGo(s, X, y, par, k) ==
    LET d == Norm2Sq(VSub(s.g, s.gOld))
        again == IF par.documented THEN ~FLt(d, par.tol) ELSE FLt(d, par.tol)
    IN IF s.it > 0 /\ ~(again /\ s.it < par.maxIter) THEN s ELSE
    LET rt == RootW(s.Wr, s.Wx)
        Xp == ScaleRows(X, rt)
        yp == Force([i \in 1..Len(y) |-> FMul(y[i], rt[i])])
        m == Simpls(Xp, yp, k)
        W == SlimAll(m.W, par.nc)
        T == ScaleRows(MMul(Xp, W), Force([i \in 1..Len(rt) |-> FDiv(F1, rt[i])]))
        r == VSub(yp, MVec(T, m.Q))
        \* weights fit for use
        ok == s.ok /\ m.sure = k /\ Sizeable(Mad(r), VMaxAbs(y))
    IN PrmGo([it |-> s.it + 1, ok |-> ok, g |-> m.Q, gOld |-> s.g, W |-> W, Wr |-> ResidualWeights(r, par.C), Wx |-> LeverageWeights(T, par), B |-> MVec(W, m.Q)], X, y, par, k)
Prm(X, y, par, k) ==
    LET r0 == VShift(y, VMedian(y)) IN
    PrmGo([it |-> 0, ok |-> Sizeable(Mad(r0), VMaxAbs(y)), g |-> ZeroV(k), gOld |-> ZeroV(k), W |-> <<>>, B |-> <<>>,
           Wr |-> ResidualWeights(r0, par.C), Wx |-> LeverageWeights(X, par)], X, y, par, k)

(***************************************************************************)
(* Variance constrained PLS: w is the dominant solution of                  *)
(* (X'y y'X - lambda I) w = mu (X'X + nu I) w                               *)
(***************************************************************************)
Nu == FTen(-7)
VcWeightOk(X, y, lam, w, tol) ==
    LET p == NC(X)
        a == TVec(X, y)
        G1 == MSub(Outer(a, a), MScale(MId(p), lam))
        G2 == MAdd(MMul(MT(X), X), MScale(MId(p), Nu))
        g1 == MVec(G1, w)  g2 == MVec(G2, w)
        mu == FDiv(FDot(w, g1), FDot(w, g2))
        S == SymFun(G2, LAMBDA x : FDiv(F1, FSqrt(FMax(x, FMul(FRat(1, 2), Nu)))))
        top == SymEigVals(MMul(MMul(S, G1), S))[1]
        scale == FAdd(MMaxAbs(G1), FMul(FAbs(mu), MMaxAbs(G2)))
    IN /\ FClose(Norm2(w), F1, tol, F0)
       /\ FLe(VMaxAbs(VSub(g1, VScale(g2, mu))), FMul(tol, scale))
       /\ FLe(FSub(top, FMul(FTen(-4), FAdd(FAbs(top), F1))), mu)
RECURSIVE VcGo(_, _, _, _)
\* X deflated by the observed weights; the weights of every sure component must be dominant
VcGo(s, W, y, lam) ==
    IF s.h = NC(W) THEN s ELSE
    LET w == Col(W, s.h + 1)
        t == MVec(s.X, w)
        tt == FDot(t, t)
        p == VScale(TVec(s.X, t), FDiv(F1, tt))
        good == Sizeable4(FSqrt(tt), s.x1) /\ Sizeable4(Norm2(TVec(s.X, y)), s.a1)
    IN VcGo([h |-> s.h + 1, sure |-> Grow(s, good), x1 |-> s.x1, a1 |-> s.a1, X |-> MSub(s.X, Outer(t, p)), P |-> HCol(s.P, p),
             b |-> Append(s.b, FDiv(FDot(t, y), tt)), dom |-> Append(s.dom, ~good \/ VcWeightOk(s.X, y, lam, w, FTen(-5)))], W, y, lam)
Vcpls(X, y, lam, W) == VcGo([h |-> 0, sure |-> 0, x1 |-> MFrob(X), a1 |-> Norm2(TVec(X, y)), X |-> X, P |-> <<>>, b |-> <<>>, dom |-> <<>>], W, y, lam)

(***************************************************************************)
(* Kernel PLS, step by step from the observed T and U                       *)
(***************************************************************************)
Centring(n) == MSub(MId(n), MFill(n, n, FRat(1, n)))
RECURSIVE KplsGo(_, _, _)
KplsGo(s, o, k) ==
    IF s.h = k THEN s ELSE
    LET h == s.h + 1
        t == Col(o.T, h)  u == Col(o.U, h)  q == Col(o.Q, h)
        n == Len(t)
        Ku == MVec(s.K, u)
        tn == VUnit(Ku)
        D == MSub(MId(n), Outer(t, t))
        K2 == MMul(MMul(D, s.K), D)
        YKY == MMul(MMul(MT(s.Y), s.K), s.Y)
        q1 == NC(s.Y) = 1
        good == Sizeable4(MFrob(s.K), s.k1) /\ Sizeable4(Norm2(Ku), s.k1) /\ Sizeable4(MFrob(s.Y), s.y1) /\ Sizeable4(Norm2(TVec(s.Y, t)), s.y1)
        slack == FAdd(FMul(FMul(FInt(4), o.tol), FDiv(MFrob(s.K), Norm2(Ku))), Eps(6))
        ok == /\ FClose(Norm2(t), F1, Eps(8), F0)
              /\ VNear(q, TVec(s.Y, t), Eps(7))
              /\ VNear(u, VUnit(MVec(s.Y, q)), Eps(7))
              /\ (~o.converge \/ VNear(t, tn, slack))
              /\ (~o.converge \/ LET v == MVec(s.Y, TVec(s.Y, t))  lam == FDot(t, MVec(s.K, v)) IN
                                 FLe(FMul(FRat(9, 10), SymEigVals(YKY)[1]), lam))
    IN KplsGo([h |-> h, sure |-> Grow(s, good), k1 |-> s.k1, y1 |-> s.y1, K |-> K2, Y |-> MSub(s.Y, Outer(t, q)), ok |-> Append(s.ok, ~good \/ ok)], o, k)
Kpls(K0, Y0, o, k) == KplsGo([h |-> 0, sure |-> 0, k1 |-> MFrob(K0), y1 |-> MFrob(Y0), K |-> K0, Y |-> Y0, ok |-> <<>>], o, k)
=============================================================================
