-------------------------------- MODULE C18 --------------------------------
EXTENDS Ica, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
Tol == Eps(6)
ReplayIters == 8
PinvOk(A, X) ==      \* rows of A independent: A X = I, X A symmetric
    LET XA == MMul(X, A) IN MNear(MMul(A, X), MId(NR(A)), Eps(7)) /\ MNear(XA, MT(XA), Eps(7))
\* the iteration itself, when it takes few enough steps for rounding not to matter
Follows(e, X1, U) ==
    LET par == [f |-> e.fun, al |-> e.al, tol |-> e.tol, maxIter |-> IF e.maxIter < ReplayIters THEN e.maxIter ELSE ReplayIters]
        r == IF e.alg = "deflation" THEN Deflation(X1, e.W0, par) ELSE ParallelIca(X1, e.W0, par)
        decided == (e.maxIter <= ReplayIters \/ r.it < ReplayIters) /\ FLt(FTen(-3), r.worst)
    IN ~decided \/ MNear(U, r.W, Eps(5))
Ica(e) ==
    LET X == e.X
        n == NC(X)  m == NR(X)
        mn == IF n < m THEN n ELSE m
        k == IF ~e.whiten \/ e.k > mn THEN mn ELSE e.k
        C == e.comps.v.d  S == e.res.v.d  A == e.mixing.v.d
    IN IF ~(HasShape(e.res, m, k) /\ HasShape(e.comps, k, n) /\ HasShape(e.mixing, n, k) /\ HasShape(e.recon, m, n)) THEN {"shapes"} ELSE
       IF e.whiten THEN
          LET Xc == Centered(X)
              lam == SymEigVals(MMul(MT(Xc), Xc))
              determined == FLt(FMul(FTen(-8), lam[1]), lam[k])       \* the data have that many directions
              K == e.white.v.d
              R == SubRowVec(e.recon.v.d, ColMeans(X))
              X1 == MScale(MMul(K, MT(Xc)), FSqrt(FInt(m)))
              U == MMul(C, MT(MSolve(MMul(K, MT(K)), K)))
          IN Clauses(<<
              <<"sources-kept", e.sources.ok /\ e.sources.v = e.res.v>>,
              <<"sources-are-projections", ~determined \/ MatNear(e.res, MMul(Xc, MT(C)), Tol)>>,
              <<"sources-uncorrelated-unit", ~determined \/ MNear(MMul(MT(S), S), MId(k), IF e.alg = "parallel" THEN Eps(4) ELSE Tol)>>,
              <<"mixing-is-pseudo-inverse", ~determined \/ PinvOk(ScaleEachRow(C, [i \in 1..k |-> F1]), A)>>,
              <<"reconstruction-from-sources", ~determined \/ MNear(R, MMul(S, MT(A)), Tol)>>,
              <<"reconstruction-is-closest", ~determined \/ FClose(MFrobSq(MSub(Xc, R)), FSub(FSum(lam), TopSum(lam, k)), FMul(Tol, FSum(lam)), F0)>>,
              <<"fixed-point-iteration", ~determined \/ ~HasShape(e.white, k, n) \/ Follows(e, X1, U)>> >>)
       ELSE Clauses(<<
              <<"sources-kept", e.sources.ok /\ e.sources.v = e.res.v>>,
              <<"unmixing-orthogonal", MNear(MMul(C, MT(C)), MId(k), Tol)>>,
              <<"sources-are-projections", MatNear(e.res, MMul(X, MT(C)), Tol)>>,
              <<"mixing-is-pseudo-inverse", PinvOk(C, A)>>,
              <<"reconstruction-from-sources", MatNear(e.recon, X, Tol)>>,
              <<"fixed-point-iteration", Follows(e, MT(X), C)>> >>)
C_Violated(s, e) ==
    CASE e.op = "ica" -> IF Raised(e.res) THEN {"answered"} ELSE Ica(e)
      [] e.op = "fun" -> Clauses(<<
             <<"contrast-value", MatNear(e.g, GvM(e.fun, e.al, e.X), Eps(10))>>,
             <<"contrast-mean-derivative", MatNear(e.gd, ColVec(GdMeans(e.fun, e.al, e.X)), Eps(10))>> >>)
      [] e.op = "untrained" -> Clauses(<< <<"no-reconstruction-untrained", Raised(e.recon)>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
