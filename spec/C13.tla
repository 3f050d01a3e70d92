-------------------------------- MODULE C13 --------------------------------
EXTENDS Pls, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
TolM == Eps(6)
Xt(e) == PreX(e.pre, e.X, e.X)
Yt(e) == PreX(e.pre, e.Y, e.Y)
Xn(e) == PreX(e.pre, e.X, e.N)

SimplsOk(e) ==
    LET X == Xt(e)
        s == Simpls(X, Col(Yt(e), 1), e.k)
        W == e.W.v.d   Q == e.Q.v.d[1]   B == e.B.v.d
        Sg(j) == IF FLt(FDot(Col(W, j), Col(s.W, j)), F0) THEN FInt(-1) ELSE F1
    IN Clauses(<<
        <<"weights-follow-recursion", \A j \in 1..s.sure :
             IF e.nc > 0 /\ e.nc < NC(X) THEN Slimmed(VScale(Col(s.W, j), Sg(j)), Col(W, j), e.nc + 1, TolM)
             ELSE VNearRel(Col(W, j), VScale(Col(s.W, j), Sg(j)), TolM)>>,
        <<"loadings-follow-recursion", \A j \in 1..s.sure : FClose(Q[j], FMul(Sg(j), s.Q[j]), FMul(TolM, VMaxAbs(SubSeq(s.Q, 1, s.sure))), F0)>>,
        <<"coefficients-from-weights", MNearRel(B, MMul(W, MT(e.Q.v.d)), Eps(10))>>,
        <<"predictions-from-coefficients", MatNear(e.pred, BackY(e.pre, e.Y, MMul(Xn(e), B)), Eps(8))>>,
        <<"scores-from-weights", MatNear(e.trans, MMul(Xn(e), W), Eps(8))>>,
        <<"loadings-query", e.load.v = e.W.v>> >>)

Pls1Ok(e) ==
    LET X == Xt(e)
        s == Pls1(X, Col(Yt(e), 1), e.k)
        W == e.W.v.d  P == e.P.v.d  b == Col(e.b.v.d, 1)
        T == DeflatedScores(Xn(e), W, P)
    IN Clauses(<<
        <<"weights-follow-recursion", ColsNear(W, s.W, s.sure, TolM)>>,
        <<"loadings-follow-recursion", ColsNear(P, s.P, s.sure, TolM)>>,
        <<"inner-coefficients", \A j \in 1..s.sure : FClose(b[j], s.b[j], FMul(TolM, VMaxAbs(SubSeq(s.b, 1, s.sure))), F0)>>,
        <<"regression-vector", s.sure < e.k \/ MatNearRel(e.reg, RegVector(s.W, s.P, s.b), TolM)>>,
        <<"scores-from-weights", MatNear(e.trans, T, Eps(8))>>,
        \* (inner coefficients of components the data do not determine can be huge,
        \*  and so is then the rounding of each term that enters the sum)
        <<"predictions-from-scores", MatNear(e.pred, BackY(e.pre, e.Y, MMul(T, ColVec(b))),
                                             IF s.sure = e.k THEN Eps(8)
                                             ELSE FMul(Eps(8), FAdd(F1, FMul(MMagn(T), MMagn(ColVec(b))))))>>,
        <<"regression-vector-predicts", s.sure < e.k \/ MatNear(e.pred, BackY(e.pre, e.Y, MMul(Xn(e), e.reg.v.d)), TolM)>>,
        <<"loadings-query", e.load.v = e.P.v>> >>)

NipalsOk(e) ==
    LET X0 == Xt(e)  Y0 == Yt(e)
        Xs == StandardizeOf(X0, X0)  Ys == StandardizeOf(Y0, Y0)
        par == [cca |-> FALSE, normY |-> e.normY, tol |-> e.tol, maxIter |-> e.maxIter, canon |-> e.canon]
        s == Nipals(Xs, Ys, par, e.k)
        ok == s.sure = s.h
        Ns == StandardizeOf(X0, Xn(e))
        R == IF s.h = 0 THEN MZero(NC(X0), e.k) ELSE Rotations(s.W, s.P)
        coef == IF s.h = 0 THEN MZero(NC(X0), NC(Y0)) ELSE MulRowVec(MMul(R, MT(s.Q)), Devs1(Y0))
        pad(A) == IF A = <<>> THEN MZero(NR(X0), e.k) ELSE IF NC(A) = e.k THEN A ELSE MHCat(A, MZero(NR(A), e.k - NC(A)))
    IN Clauses(<<
        <<"x-scores", ColsNear(e.T.v.d, s.T, s.sure, TolM)>>,
        <<"y-scores", ColsNear(e.U.v.d, s.U, s.sure, TolM)>>,
        <<"x-loadings", ColsNear(e.P.v.d, s.P, s.sure, TolM)>>,
        <<"y-loadings", ColsNear(e.Q.v.d, s.Q, s.sure, TolM)>>,
        <<"stops-when-nothing-is-left", ok => (ZeroFrom(e.T.v.d, s.h + 1) /\ ZeroFrom(e.P.v.d, s.h + 1))>>,
        <<"predictions", ok => MatNear(e.pred, BackY(e.pre, e.Y, AddRowVec(MMul(Ns, coef), ColMeans(Y0))), TolM)>>,
        <<"scores-of-new-data", ok => MatNear(e.trans, pad(MMul(Ns, R)), TolM)>>,
        <<"training-scores-reproduced", ok => MatNear(e.trans0, pad(s.T), TolM)>>,
        <<"loadings-query", e.load.v = e.P.v>> >>)

\* training may fail only where the data do not determine the components
SureOf(e) == CASE e.op = "SIMPLS" -> Simpls(Xt(e), Col(Yt(e), 1), e.k).sure
               [] e.op = "PLS1" -> Pls1(Xt(e), Col(Yt(e), 1), e.k).sure
               [] OTHER -> e.k
Shapes(e) ==
    LET p == NC(e.X)  n == NR(e.X)  m == NR(e.N)  q == NC(e.Y) IN
    /\ e.init.ok /\ e.init.v.t = "none"
    /\ HasShape(e.pred, m, q)
    /\ HasShape(e.trans, m, e.k)
    /\ e.load.ok
    /\ CASE e.op = "SIMPLS" -> HasShape(e.W, p, e.k) /\ HasShape(e.Q, 1, e.k) /\ HasShape(e.B, p, 1)
         [] e.op = "PLS1" -> HasShape(e.W, p, e.k) /\ HasShape(e.P, p, e.k) /\ HasShape(e.b, e.k, 1) /\ HasShape(e.reg, p, 1)
         [] OTHER -> HasShape(e.T, n, e.k) /\ HasShape(e.U, n, e.k) /\ HasShape(e.P, p, e.k) /\ HasShape(e.Q, q, e.k)
C_Violated(s, e) ==
    CASE e.op \in {"SIMPLS", "PLS1", "NIPALS"} ->
           IF Raised(e.init) \/ (e.init.ok /\ e.init.v.t = "str") THEN Clauses(<< <<"training-succeeds", SureOf(e) < e.k>> >>)
           ELSE IF ~Shapes(e) THEN {"model-shapes"}
           ELSE CASE e.op = "SIMPLS" -> SimplsOk(e) [] e.op = "PLS1" -> Pls1Ok(e) [] OTHER -> NipalsOk(e)
      [] e.op = "probe" -> Clauses(<< <<"number-of-coefficients", \A j \in 1..e.k : Cardinality({i \in 1..NC(e.X) : ~FEq(e.W.v.d[i][j], F0)}) = e.nc>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
