-------------------------------- MODULE C28 --------------------------------
\* Trace specification of decompositions, inverses and linear solve of one matrix (stateless).
EXTENDS Decomp, Conform
C_InitSt == 0
C_NextSt(s, e) == s
Sq(A) == NR(A) = NC(A)
DiagOf(M) == [i \in 1..NR(M) |-> M[i][i]]
\* A X A = A, X A X = X, AX and XA symmetric: X is the pseudo-inverse
MoorePenrose(A, X, tol) ==
    LET AX == MMul(A, X)  XA == MMul(X, A)
    IN /\ NR(X) = NC(A) /\ NC(X) = NR(A)
       /\ MClose(MMul(AX, A), A, FMul(tol, ScaleOf(A)), F0)
       /\ MClose(MMul(XA, X), X, FMul(tol, ScaleOf(X)), F0)
       /\ MClose(AX, MT(AX), FMul(tol, FMul(ScaleOf(A), ScaleOf(X))), F0)
       /\ MClose(XA, MT(XA), FMul(tol, FMul(ScaleOf(A), ScaleOf(X))), F0)
C_Violated(s, e) ==
    LET A == e.a  tol == Eps(9)  t == FMul(Eps(8), ScaleOf(A)) IN
    CASE e.op = "eig" ->
            IF ~Sq(A) THEN Clauses(<<<<"refused", ~e.vals.ok /\ ~e.vecs.ok>>>>) ELSE
            LET q == <<e.vals, e.vecs, e.desc, e.asc, e.vdesc, e.vasc, e.dom, e.d>>
                ok == \A k \in 1..Len(q) : q[k].ok
                Z(m) == Cplx(Col(m.re, 1), Col(m.im, 1))
            IN IF ~ok THEN {"answered"} ELSE Clauses(<<
                 <<"eigenvalues", NC(e.vals.re) = 1 /\ SpectrumOf(A, Z(e.vals), tol)>>,
                 <<"eigenvalues-descending", NC(e.desc.re) = 1 /\ SpectrumOf(A, Z(e.desc), tol) /\ Desc(Col(e.desc.re, 1), F0)>>,
                 <<"eigenvalues-ascending", NC(e.asc.re) = 1 /\ SpectrumOf(A, Z(e.asc), tol) /\ Asc(Col(e.asc.re, 1), F0)>>,
                 <<"eigenvectors", EigVectors(A, e.vecs.re, e.vecs.im, tol)>>,
                 <<"eigenvectors-descending", EigVectors(A, e.vdesc.re, e.vdesc.im, tol) /\ VNear(RayRe(A, e.vdesc.re, e.vdesc.im), Col(e.desc.re, 1), FMul(Eps(8), FAdd(F1, ScaleOf(A))))>>,
                 <<"eigenvectors-ascending", EigVectors(A, e.vasc.re, e.vasc.im, tol) /\ VNear(RayRe(A, e.vasc.re, e.vasc.im), Col(e.asc.re, 1), FMul(Eps(8), FAdd(F1, ScaleOf(A))))>>,
                 <<"dominant", NC(e.dom.re) = 1 /\ EigVector(A, Col(e.dom.re, 1), Col(e.dom.im, 1), tol)
                                 /\ FClose(RayRe(A, e.dom.re, e.dom.im)[1], e.desc.re[1][1], t, F0)>>,
                 <<"eigenvalue-matrix", /\ MClose(e.d.re, MDiag(DiagOf(e.d.re)), F0, F0)
                                        /\ SpectrumOf(A, Cplx(DiagOf(e.d.re), DiagOf(e.d.im)), tol)
                                        /\ VNear(RayRe(A, e.vecs.re, e.vecs.im), DiagOf(e.d.re), FMul(Eps(8), FAdd(F1, ScaleOf(A))))>>>>)
      [] e.op = "svd" ->
            IF ~(e.u.ok /\ e.s.ok /\ e.w.ok /\ e.vals.ok) THEN {"answered"} ELSE
            LET sv == DiagOf(e.s.re) IN Clauses(<<
                 <<"singular-values", NC(e.vals.re) = 1 /\ SingularVals(A, Col(e.vals.re, 1), tol)>>,
                 <<"singular-value-matrix", NR(e.s.re) = MinDim(A) /\ NC(e.s.re) = MinDim(A) /\ MClose(e.s.re, MDiag(sv), F0, F0) /\ VNear(sv, Col(e.vals.re, 1), Eps(10))>>,
                 <<"singular-factors", SvdFactors(A, e.u.re, sv, e.w.re, tol)>>>>)
      [] e.op = "inv" ->      \* both entry points
            IF e.singular THEN Clauses(<<<<"singular-refused", ~Sq(A) \/ (Raised(e.res) /\ Raised(e.hres))>>>>) ELSE Clauses(<<
                 <<"inverse", IsMat(e.res) /\ (IF Sq(A) THEN LET X == e.res.v.d  u == FMul(tol, FMul(ScaleOf(A), ScaleOf(X)))
                                                            IN MClose(MMul(A, X), MId(NR(A)), u, F0) /\ MClose(MMul(X, A), MId(NR(A)), u, F0)
                                              ELSE MoorePenrose(A, e.res.v.d, tol))>>,
                 <<"helper-inverse", e.hres.ok /\ e.hres.v = e.res.v>>>>)
      [] e.op = "pinv" -> Clauses(<<<<"pseudo-inverse", IsMat(e.res) /\ MoorePenrose(A, e.res.v.d, tol)>>>>)
      [] e.op = "solve" -> Clauses(<<<<"solution", IsMat(e.res) /\ NR(e.res.v.d) = NR(A) /\ NC(e.res.v.d) = NC(e.b)
                                       /\ MClose(MMul(A, e.res.v.d), e.b, FMul(tol, FAdd(FMul(ScaleOf(A), ScaleOf(e.res.v.d)), ScaleOf(e.b))), F0)>>>>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
