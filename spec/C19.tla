-------------------------------- MODULE C19 --------------------------------
EXTENDS Kernels, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
\* scale of the terms that may cancel in a dot product
KTol(e, X, Y) == LET m == FMul(FMul(MMaxAbs(X), MMaxAbs(Y)), FInt(NC(X)))
                     q == FAdd(F1, FAdd(FMul(IF FIsNaN(e.gamma) THEN F1 ELSE FAbs(e.gamma), m), FAbs(e.coef)))
                 IN FMul(Eps(12), IF e.cls = "RBFKernel" THEN q ELSE FIPow(q, e.deg))
Close(e, r, X, Y) == HasShape(r, NR(X), NR(Y)) /\ MClose(r.v.d, KMat(e, X, Y), KTol(e, X, Y), Eps(11))
C_Violated(s, e) ==
    CASE e.op = "kernel" ->
           Clauses(<< <<"kernel-of-every-pair", Close(e, e.KXY, e.X, e.Y)>>,
                      <<"kernel-with-itself", Close(e, e.KX, e.X, e.X)>>,
                      <<"kernel-with-itself-explicit", Close(e, e.KXX, e.X, e.X)>>,
                      <<"symmetric", IsMat(e.KX) /\ MClose(e.KX.v.d, MT(e.KX.v.d), KTol(e, e.X, e.X), F0)>>,
                      <<"vector-form-agrees", Close(e, e.vecs, e.X, e.Y)>>,
                      <<"parameters-kept", e.same>> >>)
      [] e.op = "probe" ->
           Clauses(<< <<"documented-squared-distance", IsMat(e.KXY) /\ MNear(e.KXY.v.d, MBuild(NR(e.X), NR(e.Y), LAMBDA i, j : KRbfDoc(e.X[i], e.Y[j], e.gamma)), Eps(10))>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
