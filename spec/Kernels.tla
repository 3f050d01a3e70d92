------------------------------- MODULE Kernels -------------------------------
EXTENDS Obs
RECURSIVE FIPow(_, _)
FIPow(x, n) == IF n = 0 THEN F1 ELSE FMul(x, FIPow(x, n - 1))
GammaOf(g, x) == IF FIsNaN(g) THEN FRat(1, Len(x)) ELSE g
KLin(x, y) == FDot(x, y)
KPoly(x, y, g, c0, deg) == FIPow(FAdd(FMul(GammaOf(g, x), FDot(x, y)), c0), deg)
KRbf(x, y, g) == FExp(FNeg(FMul(GammaOf(g, x), Norm2(VSub(x, y)))))          \* as implemented: plain distance
KRbfDoc(x, y, g) == FExp(FNeg(FMul(GammaOf(g, x), Norm2Sq(VSub(x, y)))))     \* as documented
KVal(e, x, y) == CASE e.cls = "LinearKernel" -> KLin(x, y)
                   [] e.cls = "PolyKernel" -> KPoly(x, y, e.gamma, e.coef, e.deg)
                   [] OTHER -> KRbf(x, y, e.gamma)
KMat(e, X, Y) == MBuild(NR(X), NR(Y), LAMBDA i, j : KVal(e, X[i], Y[j]))
=============================================================================
