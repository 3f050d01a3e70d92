-------------------------------- MODULE Pls --------------------------------
(***************************************************************************)
(* Partial least squares: the component recursions of SIMPLS, PLS1 and      *)
(* NIPALS.  A recursion state carries everything computed so far; 'sure' is *)
(* the number of leading components that rounding cannot have decided.      *)
(***************************************************************************)
EXTENDS Transform

\* preprocessing of training and new data
PreX(pre, cfg, X) == CASE pre = "center" -> CenterOf(cfg, X) [] pre = "standardize" -> StandardizeOf(cfg, X) [] OTHER -> X
\* predictions back on the scale of each response column
BackY(pre, Y, P) == CASE pre = "center" -> AddRowVec(P, ColMeans(Y))
                      [] pre = "standardize" -> AddRowVec(MulRowVec(P, ColStds(Y)), ColMeans(Y))
                      [] OTHER -> P
HCol(A, v) == IF A = <<>> THEN ColVec(v) ELSE MHCat(A, ColVec(v))
NoiseFloor == FTen(-5)

(***************************************************************************)
(* SIMPLS (one response)                                                    *)
(***************************************************************************)
RECURSIVE SimplsGo(_, _)
SimplsGo(s, k) ==
    IF s.h = k THEN s ELSE
    LET sure == IF s.sure = s.h /\ FLe(FMul(NoiseFloor, s.a1), Norm2(s.A)) THEN s.h + 1 ELSE s.sure
        c == FDot(s.A, MVec(s.M, s.A))
        w == VScale(s.A, FDiv(F1, FSqrt(c)))
        p == MVec(s.M, w)
        q == FDot(s.A, w)
        v == VUnit(MVec(s.C, p))
        C2 == MSub(s.C, Outer(v, v))
    IN SimplsGo([h |-> s.h + 1, sure |-> sure, a1 |-> s.a1, A |-> MVec(C2, s.A), M |-> MSub(s.M, Outer(p, p)), C |-> C2,
                 W |-> HCol(s.W, w), Q |-> Append(s.Q, q)], k)
Simpls(X, y, k) == LET A == TVec(X, y) IN
    SimplsGo([h |-> 0, sure |-> 0, a1 |-> Norm2(A), A |-> A, M |-> MMul(MT(X), X), C |-> MId(NC(X)), W |-> <<>>, Q |-> <<>>], k)
\* only the largest entries of a weight vector survive: m of them, more with ties
Slimmed(w, v, m, tol) ==
    LET kept == {i \in 1..Len(w) : ~FEq(v[i], F0)}
        gone == (1..Len(w)) \ kept
        t == FMul(tol, VMaxAbs(w))
    IN /\ \A i \in kept : FClose(v[i], w[i], t, F0)
       /\ \A i \in kept, j \in gone : FLe(FAbs(w[j]), FAdd(FAbs(w[i]), t))
       /\ Cardinality(kept) >= (IF m < Len(w) THEN m ELSE Len(w))
       /\ Cardinality({i \in kept : \E j \in kept : FLt(FAdd(FAbs(w[j]), t), FAbs(w[i]))}) <= m

(***************************************************************************)
(* PLS1 (one response); Weight(X, y) gives the next weight vector           *)
(***************************************************************************)
RECURSIVE Pls1Go(_, _, _)
Pls1Go(s, y, k) ==
    IF s.h = k THEN s ELSE
    LET a == TVec(s.X, y)
        sure == IF s.sure = s.h /\ FLe(FMul(NoiseFloor, s.a1), Norm2(a)) THEN s.h + 1 ELSE s.sure
        w == VUnit(a)
        t == MVec(s.X, w)
        tt == FDot(t, t)
        p == VScale(TVec(s.X, t), FDiv(F1, tt))
    IN Pls1Go([h |-> s.h + 1, sure |-> sure, a1 |-> s.a1, X |-> MSub(s.X, Outer(t, p)), W |-> HCol(s.W, w), P |-> HCol(s.P, p), T |-> HCol(s.T, t),
               b |-> Append(s.b, FDiv(FDot(t, y), tt))], y, k)
Pls1(X, y, k) == Pls1Go([h |-> 0, sure |-> 0, a1 |-> Norm2(TVec(X, y)), X |-> X, W |-> <<>>, P |-> <<>>, T |-> <<>>, b |-> <<>>], y, k)
\* scores of new rows: project, deflate, next component
RECURSIVE ScoresGo(_, _, _, _, _)
ScoresGo(X, W, P, j, T) ==
    IF j > NC(W) THEN T
    ELSE LET t == MVec(X, Col(W, j)) IN ScoresGo(MSub(X, Outer(t, Col(P, j))), W, P, j + 1, HCol(T, t))
DeflatedScores(X, W, P) == ScoresGo(X, W, P, 1, <<>>)
RegVector(W, P, b) == MMul(W, MSolve(MMul(MT(P), W), ColVec(b)))

(***************************************************************************)
(* NIPALS on standardised data (any number of responses)                    *)
(***************************************************************************)
TinyEps == FTen(-16)
\* Xw(u) and Yw(t) give the unnormalised weights (they differ between PLS and CCA)
RECURSIVE NipLoop(_, _, _, _, _, _)
NipLoop(X, Y, par, u, wold, it) ==
    LET w0 == IF par.cca THEN MVec(par.Xpi, u) ELSE VScale(TVec(X, u), FDiv(F1, FDot(u, u)))
        w1 == IF FLt(FDot(w0, w0), TinyEps) THEN [i \in 1..Len(w0) |-> FAdd(w0[i], TinyEps)] ELSE w0
        w == VScale(w1, FDiv(F1, FAdd(Norm2(w1), TinyEps)))
        t == MVec(X, w)
        c0 == IF par.cca THEN MVec(par.Ypi, t) ELSE VScale(TVec(Y, t), FDiv(F1, FDot(t, t)))
        c == IF par.normY THEN VScale(c0, FDiv(F1, FAdd(Norm2(c0), TinyEps))) ELSE c0
        u2 == VScale(MVec(Y, c), FDiv(F1, FAdd(FDot(c, c), TinyEps)))
        d == VSub(w, wold)
    IN IF FLt(FDot(d, d), par.tol) \/ NC(Y) = 1 \/ it >= par.maxIter THEN [w |-> w, c |-> c, it |-> it]
       ELSE NipLoop(X, Y, par, u2, w, it + 1)
ZeroV(n) == [i \in 1..n |-> F0]
NipFloor == FTen(-10)
\* par: [cca, normY, tol, maxIter, canon, Xpi, Ypi]; result carries the components found before a break
RECURSIVE NipGo(_, _, _)
NipGo(s, par, k) ==
    IF s.h = k THEN s ELSE
    LET YY == MMul(MT(s.Y), s.Y) IN
    IF \A i \in 1..NR(YY) : \A j \in 1..NR(YY) : FLt(YY[i][j], NipFloor) THEN s ELSE
    IF FLt(MFrobSq(s.X), NipFloor) THEN s ELSE     \* the predictors are used up
    LET sure == IF s.sure = s.h /\ FLe(FMul(NoiseFloor, s.a1), MMaxAbs(MMul(MT(s.X), s.Y))) THEN s.h + 1 ELSE s.sure
        l == NipLoop(s.X, s.Y, par, Col(s.Y, 1), ZeroV(NC(s.X)), 0)
        t == MVec(s.X, l.w)
        u == VScale(MVec(s.Y, l.c), FDiv(F1, FDot(l.c, l.c)))
        tt == FDot(t, t)
    IN IF FLt(tt, NipFloor) THEN s ELSE
       LET p == VScale(TVec(s.X, t), FDiv(F1, tt))
           X2 == MSub(s.X, Outer(t, p))
           q == IF par.canon THEN VScale(TVec(s.Y, u), FDiv(F1, FDot(u, u))) ELSE VScale(TVec(s.Y, t), FDiv(F1, tt))
           Y2 == MSub(s.Y, Outer(IF par.canon THEN u ELSE t, q))
       IN NipGo([h |-> s.h + 1, sure |-> sure, a1 |-> s.a1, X |-> X2, Y |-> Y2, T |-> HCol(s.T, t), U |-> HCol(s.U, u), P |-> HCol(s.P, p), Q |-> HCol(s.Q, q),
                 W |-> HCol(s.W, l.w), C |-> HCol(s.C, l.c)], par, k)
Nipals(Xs, Ys, par, k) == NipGo([h |-> 0, sure |-> 0, a1 |-> MMaxAbs(MMul(MT(Xs), Ys)), X |-> Xs, Y |-> Ys, T |-> <<>>, U |-> <<>>, P |-> <<>>, Q |-> <<>>, W |-> <<>>, C |-> <<>>], par, k)
\* rotations W (P'W)^-1 of the components found
Rotations(W, P) == MMul(W, MInv(MMul(MT(P), W)))
\* the first n columns of an observed matrix are B's, up to tolerance relative to the column
ColsNear(r, B, n, tol) == \A j \in 1..n : VNearRel(Col(r, j), Col(B, j), tol)
ColsNearSign(r, B, n, tol) == \A j \in 1..n : VNearRel(Col(r, j), Col(B, j), tol) \/ VNearRel(Col(r, j), VNeg(Col(B, j)), tol)
ZeroFrom(r, n) == \A j \in n..NC(r) : \A i \in 1..NR(r) : FEq(r[i][j], F0)
=============================================================================
