-------------------------------- MODULE C15 --------------------------------
EXTENDS Pca, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
Tol == Eps(7)
C_Violated(s, e) ==
    CASE e.op = "pca" ->
      IF ~(IsMat(e.res) /\ IsMat(e.load) /\ IsMat(e.scores)) THEN {"answered"} ELSE
      LET X == e.X
          keep == Varying(X)
          T == PcaData(X, e.center)
          C == Covariance(T)
          lam == SymEigVals(C)
          k == e.load.v.c - 1
          L == e.load.v.d
      IN IF ~(e.load.v.r = NC(X) /\ k >= 1 /\ HasShape(e.res, NR(X), k)) THEN {"shapes"} ELSE
         LET V == MRows(MCols(L, Upto(k)), keep)
             top == lam[1]
             CV == MMul(C, V)
             ray == Force([j \in 1..k |-> FDot(Col(V, j), Col(CV, j))])
         IN Clauses(<<
            <<"number-of-components", EnoughFor(lam, k, e.share, e.max, Eps(9))>>,
            <<"orthonormal-loadings", OrthoCols(V, Tol)>>,
            <<"eigenvectors", FLe(MMaxAbs(MSub(CV, MulRowVec(V, ray))), FMul(Tol, top))>>,
            <<"largest-variances-first", \A j \in 1..k : FClose(ray[j], lam[j], FMul(Tol, top), F0)>>,
            <<"constant-columns-have-zero-loadings", \A i \in 1..NC(X) : (\A m \in 1..Len(keep) : keep[m] # i) => \A j \in 1..k : FEq(L[i][j], F0)>>,
            <<"input-numbers", \A i \in 1..NC(X) : FEq(L[i][k + 1], FInt(i))>>,
            <<"scores-are-projections", MatNear(e.res, MMul(T, V), Tol)>>,
            <<"scores-kept", e.scores.v = e.res.v>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
