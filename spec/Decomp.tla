------------------------------- MODULE Decomp -------------------------------
(***************************************************************************)
(* When do numbers deserve to be called eigenvalues, eigenvectors, singular *)
(* values and factors of a matrix A?  Complex results are pairs of real and *)
(* imaginary parts.  The multiset of eigenvalues of an n x n matrix is      *)
(* determined by its first n power sums trace(A^k).                         *)
(***************************************************************************)
EXTENDS Obs

CMul(x, y) == [re |-> FSub(FMul(x.re, y.re), FMul(x.im, y.im)), im |-> FAdd(FMul(x.re, y.im), FMul(x.im, y.re))]
RECURSIVE CPow(_, _)
CPow(x, k) == IF k = 1 THEN x ELSE CMul(x, CPow(x, k - 1))
CPowSum(xs, k) == LET p == Force([i \in 1..Len(xs) |-> CPow(xs[i], k)])
                  IN [re |-> FSum(Force([i \in 1..Len(p) |-> p[i].re])), im |-> FSum(Force([i \in 1..Len(p) |-> p[i].im]))]
RECURSIVE MPow(_, _)
MPow(A, k) == IF k = 1 THEN A ELSE MMul(A, MPow(A, k - 1))
RECURSIVE FPowI(_, _)
FPowI(x, k) == IF k = 0 THEN F1 ELSE FMul(x, FPowI(x, k - 1))

\* xs (complex numbers) is the spectrum of A, up to backward errors of size tol * |A|
SpectrumOf(A, xs, tol) ==
    LET n == NR(A)
        nrm == FSqrt(MFrobSq(A))
    IN /\ Len(xs) = n
       /\ \A k \in 1..n : LET p == CPowSum(xs, k)
                              t == FMul(FMul(tol, FInt(n * k)), FAdd(FPowI(nrm, k), FTen(-300)))
                          IN FClose(p.re, MTrace(MPow(A, k)), t, F0) /\ FClose(p.im, F0, t, F0)
Cplx(re, im) == Force([i \in 1..Len(re) |-> [re |-> re[i], im |-> im[i]]])
\* Rayleigh quotient of the complex vector vr + i vi and the residual of the eigenvector equation
Rayleigh(A, vr, vi) ==
    LET ar == MVec(A, vr)  ai == MVec(A, vi)
        nn == FAdd(Norm2Sq(vr), Norm2Sq(vi))
    IN [re |-> FDiv(FAdd(FDot(vr, ar), FDot(vi, ai)), nn), im |-> FDiv(FSub(FDot(vr, ai), FDot(vi, ar)), nn)]
EigVector(A, vr, vi, tol) ==
    LET q == Rayleigh(A, vr, vi)
        ar == MVec(A, vr)  ai == MVec(A, vi)
        lr == VSub(VScale(vr, q.re), VScale(vi, q.im))
        li == VAdd(VScale(vr, q.im), VScale(vi, q.re))
        t == FMul(tol, FAdd(FSqrt(MFrobSq(A)), FTen(-300)))
    IN /\ FNear(FAdd(Norm2Sq(vr), Norm2Sq(vi)), F1, Eps(9))
       /\ MClose(<<ar>>, <<lr>>, t, F0) /\ MClose(<<ai>>, <<li>>, t, F0)
\* columns are eigenvectors of unit length that represent the whole spectrum
EigVectors(A, Vr, Vi, tol) ==
    /\ NR(Vr) = NR(A) /\ NC(Vr) = NR(A)
    /\ \A j \in 1..NC(Vr) : EigVector(A, Col(Vr, j), Col(Vi, j), tol)
    /\ SpectrumOf(A, Force([j \in 1..NC(Vr) |-> Rayleigh(A, Col(Vr, j), Col(Vi, j))]), Eps(8))
Desc(v, tol) == \A k \in 1..(Len(v) - 1) : FLe(v[k + 1], FAdd(v[k], tol))
Asc(v, tol)  == \A k \in 1..(Len(v) - 1) : FLe(v[k], FAdd(v[k + 1], tol))
RayRe(A, Vr, Vi) == Force([j \in 1..NC(Vr) |-> Rayleigh(A, Col(Vr, j), Col(Vi, j)).re])

\* Gram matrix of the smaller side: its eigenvalues are the squares of the min(r, c) singular values
Gram(A) == IF NR(A) >= NC(A) THEN MMul(MT(A), A) ELSE MMul(A, MT(A))
MinDim(A) == IF NR(A) >= NC(A) THEN NC(A) ELSE NR(A)
SingularVals(A, s, tol) ==
    /\ Len(s) = MinDim(A)
    /\ \A k \in 1..Len(s) : FLe(F0, s[k])
    /\ Desc(s, F0)
    /\ SpectrumOf(Gram(A), Force([k \in 1..Len(s) |-> [re |-> FSqr(s[k]), im |-> F0]]), tol)
ScaleOf(A) == FAdd(FSqrt(MFrobSq(A)), FTen(-300))
\* U, s, W are factors of A = U diag(s) W with orthonormal columns of U and rows of W
SvdFactors(A, U, s, W, tol) ==
    /\ NR(U) = NR(A) /\ NC(U) = MinDim(A) /\ NR(W) = MinDim(A) /\ NC(W) = NC(A)
    /\ OrthoCols(U, tol) /\ OrthoCols(MT(W), tol)
    /\ MClose(MMul(MulRowVec(U, s), W), A, FMul(tol, ScaleOf(A)), F0)
\* U alone: orthonormal, and U'AA'U is diagonal with decreasing entries that add up to |A|^2
LeftFactor(A, U, tol) ==
    /\ NR(U) = NR(A) /\ NC(U) = MinDim(A)
    /\ OrthoCols(U, tol)
    /\ LET B == MMul(MT(U), A)
           D == MMul(B, MT(B))
           t == FMul(tol, FSqr(ScaleOf(A)))
       IN /\ MClose(D, MDiag([i \in 1..NR(D) |-> D[i][i]]), t, F0)
          /\ Desc([i \in 1..NR(D) |-> D[i][i]], t)
          /\ FClose(MTrace(D), MFrobSq(A), t, F0)
RightFactor(A, W, tol) == LeftFactor(MT(A), MT(W), tol)
=============================================================================
