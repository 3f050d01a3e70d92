-------------------------------- MODULE C14 --------------------------------
EXTENDS PlsX, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
TolM == Eps(5)
Xt(e) == PreX(e.pre, e.X, e.X)
Yt(e) == PreX(e.pre, e.Y, e.Y)
Xn(e) == PreX(e.pre, e.X, e.N)
Head1(s, bs, n) == \A j \in 1..n : bs[j]

OplsOk(e) ==
    LET X == Xt(e)  y == Col(Yt(e), 1)
        s == Opls(X, y, e.k)
        all == s.sure = e.k
        Wo == e.W.v.d  Po == e.P.v.d
        Cx == OplsClean(X, Wo, Po)
        Cn == OplsClean(Xn(e), Wo, Po)
        b == Pls1(Cx, y, e.kb)
    IN Clauses(<<
        <<"orthogonal-weights", ColsNear(Wo, s.W, s.sure, TolM)>>,
        <<"orthogonal-scores", ColsNear(e.T.v.d, s.T, s.sure, TolM)>>,
        <<"orthogonal-loadings", ColsNear(Po, s.P, s.sure, TolM)>>,
        <<"removes-orthogonal-part", all => MatNear(e.trans, Cn, Eps(8))>>,
        <<"training-data-cleaned", (all /\ (e.k = 1 \/ e.op = "OPLS-probe")) => MatNear(e.trans0, s.X, TolM)>>,
        <<"base-model-on-cleaned-data", (all /\ b.sure = e.kb) => MatNear(e.pred, BackY(e.pre, e.Y, MMul(DeflatedScores(Cn, b.W, b.P), ColVec(b.b))), TolM)>>,
        <<"loadings-query", e.load.v = e.P.v>> >>)

\* stacked domains: X holds the source rows, the labelled target rows, the unlabelled ones
DiplsOk(e) ==
    LET A == Xt(e)
        n == NR(A)
        used == CASE e.mode = "unsupervised" -> e.ns [] e.mode = "supervised" -> n [] OTHER -> e.ns + e.nt
        X0 == MRows(A, Upto(used))
        S0 == MRows(A, Upto(e.ns))
        T0 == MRows(A, From(e.ns + 1, n))
        y0 == Col(Yt(e), 1)
        b0 == VMean(y0)
        s == Dipls(Centered(X0), Centered(S0), Centered(T0), VShift(y0, b0), [ns |-> e.ns, nt |-> e.nt, lambda |-> e.lambda], e.k)
        all == s.sure = e.k
        b == MMul(s.W, MSolve(MMul(MT(s.P), s.W), ColVec(s.c)))
        ref == IF e.mode = "unsupervised" THEN T0 ELSE X0
    IN Clauses(<<
        <<"invariant-weights", ColsNear(e.W.v.d, s.W, s.sure, TolM)>>,
        <<"scores", ColsNear(e.T.v.d, s.T, s.sure, TolM)>>,
        <<"domain-scores", ColsNear(e.Ts.v.d, s.Ts, s.sure, TolM) /\ ColsNear(e.Tt.v.d, s.Tt, s.sure, TolM)>>,
        <<"loadings", ColsNear(e.P.v.d, s.P, s.sure, TolM)>>,
        <<"domain-loadings", ColsNear(e.Ps.v.d, s.Ps, s.sure, TolM) /\ ColsNear(e.Pt.v.d, s.Pt, s.sure, TolM)>>,
        <<"regression-coefficients", all => MatNearRel(e.b, b, TolM)>>,
        <<"predictions", all => MatNear(e.pred, BackY(e.pre, e.Y, AddRowVec(MMul(SubRowVec(Xn(e), ColMeans(ref)), e.b.v.d), <<b0>>)), Eps(7))>>,
        <<"transformed-data", all => MatNear(e.trans, MMul(SubRowVec(Xn(e), ColMeans(X0)), e.W.v.d), Eps(7))>>,
        <<"loadings-query", e.load.v = e.T.v>> >>)

SparseOk(e) ==
    LET X0 == Xt(e)  Y0 == Yt(e)
        X == StandardizeOf(X0, X0)  y == Col(StandardizeOf(Y0, Y0), 1)
        s == Sparse(X, y, e.lambda, e.k)
        all == s.sure = e.k
        B == e.B.v.d
        W == e.W.v.d
        bs == BatchScores(Xn(e), W)
    IN Clauses(<<
        <<"sparse-directions", ColsNear(W, s.W, s.sure, TolM)>>,
        <<"zero-where-below-threshold", \A j \in 1..s.sure : \A i \in 1..NC(X) : FEq(s.W[i][j], F0) => FLe(FAbs(W[i][j]), FMul(TolM, VMaxAbs(Col(s.W, j))))>>,
        <<"coefficients-on-selected-columns", all => VNearRel(Col(B, 1), s.B, TolM)>>,
        <<"unselected-columns-have-no-weight", all => \A i \in 1..NC(X) : (\A j \in 1..Len(s.A) : s.A[j] # i) => FEq(B[i][1], F0)>>,
        <<"predictions", all => MatNear(e.pred, BackY(e.pre, e.Y, AddRowVec(MulRowVec(MMul(StandardizeOf(X0, Xn(e)), B), Devs1(Y0)), ColMeans(Y0))), Eps(7))>>,
        <<"transformed-data", ColsNear(e.trans.v.d, bs.T, IF all THEN bs.sure ELSE 0, TolM)>>,
        <<"loadings-query", e.load.v = e.W.v>> >>)

PrmOk(e, documented) ==
    LET X == Xt(e)  y == Col(Yt(e), 1)
        par == [tol |-> e.tol, maxIter |-> e.maxIter, C |-> e.C, nc |-> e.nc, documented |-> documented]
        s == Prm(X, y, par, e.k)
        W == HCol(<<>>, Force([i \in 1..Len(s.Wr) |-> FMul(s.Wr[i], s.Wx[i])]))
    IN IF ~s.ok THEN {} ELSE Clauses(<<
        <<"residual-weights", MatNear(e.Wr, ColVec(s.Wr), TolM)>>,
        <<"leverage-weights", MatNear(e.Wx, ColVec(s.Wx), TolM)>>,
        <<"combined-weights", MatNear(e.W, W, TolM)>>,
        <<"coefficients", MatNearRel(e.B, ColVec(s.B), TolM)>>,
        <<"predictions", MatNear(e.pred, BackY(e.pre, e.Y, MMul(Xn(e), e.B.v.d)), Eps(7))>>,
        <<"transformed-data", e.nc > 0 \/ MatNear(e.trans, MMul(Xn(e), s.W), TolM)>> >>)

VcplsOk(e) ==
    LET X == Xt(e)  y == Col(Yt(e), 1)
        W == e.W.v.d
        s == Vcpls(X, y, e.lambda, W)
        T == DeflatedScores(Xn(e), W, e.P.v.d)
        b == Col(e.b.v.d, 1)
        all == s.sure = e.k
    IN Clauses(<<
        <<"variance-constrained-weights", \A j \in 1..s.sure : s.dom[j]>>,
        <<"loadings", ColsNear(e.P.v.d, s.P, s.sure, TolM)>>,
        <<"inner-coefficients", \A j \in 1..s.sure : FClose(b[j], s.b[j], FMul(TolM, VMaxAbs(SubSeq(s.b, 1, s.sure))), F0)>>,
        <<"regression-vector", ~all \/ MatNearRel(e.reg, RegVector(W, s.P, s.b), TolM)>>,
        <<"transformed-data", ~all \/ MatNear(e.trans, T, Eps(7))>>,
        <<"predictions", ~all \/ MatNear(e.pred, BackY(e.pre, e.Y, MMul(T, ColVec(b))), Eps(7))>> >>)

KplsOk(e) ==
    LET X == Centered(Xt(e))  Y == Centered(Yt(e))
        n == NR(X)
        H == Centring(n)
        K0 == MMul(MMul(H, KMat(e.kern, X, X)), H)
        o == [T |-> e.T.v.d, U |-> e.U.v.d, Q |-> e.Q.v.d, tol |-> e.tol, converge |-> e.maxIter >= 100]
        s == Kpls(K0, Y, o, e.k)
        all == s.sure = e.k
        Kn == MMul(KMat(e.kern, CenterOf(Xt(e), Xn(e)), X), H)
        G == MMul(MMul(MT(o.T), K0), o.U)
        Gi == MInv(G)
        condOk == AllFinite(Gi) /\ FLe(FMul(MMaxAbs(G), MMaxAbs(Gi)), FTen(6))
        B == MMul(Gi, MT(o.Q))
    IN Clauses(<<
        <<"component-equations", \A j \in 1..s.sure : s.ok[j]>>,
        <<"deflated-kernel", ~all \/ FLe(MMaxAbs(MSub(e.K.v.d, s.K)), FMul(Eps(7), MMaxAbs(K0)))>>,
        <<"kernel-loadings", ~all \/ FLe(MMaxAbs(e.P.v.d), FMul(Eps(6), FMul(MMaxAbs(K0), FInt(n))))>>,
        <<"transformed-data", ~all \/ MatNear(e.trans, MMul(Kn, o.U), Eps(7))>>,
        <<"predictions", ~all \/ ~condOk \/ MatNear(e.pred, BackY(e.pre, e.Y, AddRowVec(MMul(MMul(Kn, o.U), B), ColMeans(Yt(e)))), TolM)>>,
        <<"loadings-query", e.load.v = e.T.v>> >>)
\* as published: centring a new kernel row also subtracts the mean training row
KplsProbe(e) ==
    LET X == Centered(Xt(e))
        n == NR(X)
        H == Centring(n)
        Kx == KMat(e.kern, X, X)
        Kn == KMat(e.kern, CenterOf(Xt(e), Xn(e)), X)
        Kc == MMul(SubRowVec(Kn, ColMeans(Kx)), H)
    IN Clauses(<< <<"new-rows-centred-in-kernel-space", MatNear(e.trans, MMul(Kc, e.U.v.d), Eps(6))>> >>)

\* CCA regression: the first component fully, later ones through their deflation
CcaReg(e) ==
    LET X0 == Xt(e)  Y0 == Yt(e)
        X == StandardizeOf(X0, X0)  Y == StandardizeOf(Y0, Y0)
        XX == MMul(MT(X), X)  YY == MMul(MT(Y), Y)
        XXi == MInv(XX)  YYi == MInv(YY)
        det == AllFinite(XXi) /\ AllFinite(YYi) /\ FLe(FMul(MMaxAbs(XX), MMaxAbs(XXi)), FTen(6)) /\ FLe(FMul(MMaxAbs(YY), MMaxAbs(YYi)), FTen(6))
        par == [cca |-> TRUE, normY |-> e.normY, tol |-> e.tol, maxIter |-> e.maxIter, canon |-> TRUE, Xpi |-> MMul(XXi, MT(X)), Ypi |-> MMul(YYi, MT(Y))]
        s == Nipals(X, Y, par, 1)
        R == Rotations(s.W, s.P)
        coef == MulRowVec(MMul(R, MT(s.Q)), Devs1(Y0))
        Ns == StandardizeOf(X0, Xn(e))
        \* the scores are the rotated training data, which determines the rotations
        Ro == MMul(par.Xpi, e.T.v.d)
        coefo == MulRowVec(MMul(Ro, MT(e.Q.v.d)), Devs1(Y0))
        RECURSIVE Goods(_, _, _)
        Goods(A, B, j) ==
            IF j > e.k THEN TRUE ELSE
            LET t == Col(e.T.v.d, j)  u == Col(e.U.v.d, j)
                p == Proj(t, A)  q == Proj(u, B)
            IN Sizeable4(Norm2(t), MFrob(X)) /\ Sizeable4(Norm2(u), MFrob(Y)) /\ Goods(MSub(A, Outer(t, p)), MSub(B, Outer(u, q)), j + 1)
        all == Goods(X, Y, 1)
        RECURSIVE Defl(_, _, _)
        Defl(A, B, j) ==       \* P and Q of component j follow from the observed scores
            IF j > e.k THEN TRUE ELSE
            LET t == Col(e.T.v.d, j)  u == Col(e.U.v.d, j)
                good == Sizeable4(Norm2(t), MFrob(X)) /\ Sizeable4(Norm2(u), MFrob(Y))
                p == Proj(t, A)  q == Proj(u, B)
            IN ~good \/ (VNear(Col(e.P.v.d, j), p, TolM) /\ VNear(Col(e.Q.v.d, j), q, TolM) /\ Defl(MSub(A, Outer(t, p)), MSub(B, Outer(u, q)), j + 1))
    IN IF ~det \/ s.h < 1 THEN {} ELSE Clauses(<<
        <<"first-x-score", ColsNear(e.T.v.d, s.T, 1, TolM)>>,
        <<"first-y-score", ColsNear(e.U.v.d, s.U, 1, TolM)>>,
        <<"loadings-and-deflation", Defl(X, Y, 1)>>,
        <<"predictions", e.k > 1 \/ MatNear(e.pred, BackY(e.pre, e.Y, AddRowVec(MMul(Ns, coef), ColMeans(Y0))), TolM)>>,
        <<"transformed-data", e.k > 1 \/ MatNear(e.trans, MMul(Ns, R), TolM)>>,
        <<"predictions-from-scores", ~all \/ MatNear(e.pred, BackY(e.pre, e.Y, AddRowVec(MMul(Ns, coefo), ColMeans(Y0))), FMul(TolM, FMax(F1, MMaxAbs(e.Y))))>>,
        <<"scores-of-new-data", ~all \/ MatNear(e.trans, MMul(Ns, Ro), TolM)>>,
        <<"loadings-query", e.load.v = e.P.v>> >>)

Shapes(e) ==
    LET p == NC(e.X)  n == NR(e.X)  m == NR(e.N)  q == NC(e.Y) IN
    /\ e.init.ok /\ e.init.v.t = "none"
    /\ HasShape(e.pred, m, q)
    /\ e.load.ok
    /\ HasShape(e.trans, m, IF e.op \in {"OPLS", "OPLS-probe"} THEN p ELSE e.k)
    /\ CASE e.op \in {"OPLS", "OPLS-probe"} -> HasShape(e.W, p, e.k) /\ HasShape(e.P, p, e.k) /\ HasShape(e.T, n, e.k) /\ HasShape(e.trans0, n, p)
         [] e.op = "DIPLS" -> HasShape(e.W, p, e.k) /\ HasShape(e.P, p, e.k) /\ HasShape(e.Ps, p, e.k) /\ HasShape(e.Pt, p, e.k) /\ HasShape(e.b, p, 1)
                              /\ IsMat(e.T) /\ HasShape(e.Ts, e.ns, e.k) /\ HasShape(e.Tt, n - e.ns, e.k)
         [] e.op = "SparsePLS" -> HasShape(e.W, p, e.k) /\ HasShape(e.B, p, 1)
         [] e.op \in {"PRM", "PRM-probe"} -> HasShape(e.B, p, 1) /\ HasShape(e.Wr, n, 1) /\ HasShape(e.Wx, n, 1) /\ HasShape(e.W, n, 1)
         [] e.op = "VCPLS" -> HasShape(e.W, p, e.k) /\ HasShape(e.P, p, e.k) /\ HasShape(e.b, e.k, 1) /\ HasShape(e.reg, p, 1)
         [] e.op \in {"KernelPLS", "KernelPLS-probe"} -> HasShape(e.K, n, n) /\ HasShape(e.T, n, e.k) /\ HasShape(e.U, n, e.k) /\ HasShape(e.P, n, e.k) /\ HasShape(e.Q, q, e.k)
         [] OTHER -> HasShape(e.T, n, e.k) /\ HasShape(e.U, n, e.k) /\ HasShape(e.P, p, e.k) /\ HasShape(e.Q, q, e.k)
Ops == {"OPLS", "DIPLS", "SparsePLS", "PRM", "VCPLS", "KernelPLS", "CCARegression", "PRM-probe", "KernelPLS-probe", "OPLS-probe"}
C_Violated(s, e) ==
    CASE e.op \in Ops ->
           IF ~Shapes(e) THEN {"model-shapes"}
           ELSE CASE e.op \in {"OPLS", "OPLS-probe"} -> OplsOk(e)
                  [] e.op = "DIPLS" -> DiplsOk(e)
                  [] e.op = "SparsePLS" -> SparseOk(e)
                  [] e.op = "PRM" -> PrmOk(e, FALSE)
                  [] e.op = "PRM-probe" -> IF PrmOk(e, TRUE) = {} THEN {} ELSE {"iterates-until-convergence"}
                  [] e.op = "VCPLS" -> VcplsOk(e)
                  [] e.op = "KernelPLS" -> KplsOk(e)
                  [] e.op = "KernelPLS-probe" -> KplsProbe(e)
                  [] OTHER -> CcaReg(e)
      [] OTHER -> {"unexpected-event"}
=============================================================================
