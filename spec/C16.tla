-------------------------------- MODULE C16 --------------------------------
EXTENDS Glsw, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
Tol == Eps(7)
Cov(e) == IF e.ygrad THEN GradCov(e.A, Col(e.B, 1)) ELSE DiffCov(e.A, e.B)
Commute(A, B, t) == FLe(MMaxAbs(MSub(MMul(A, B), MMul(B, A))), FMul(t, FMul(MMaxAbs(A), FMax(MMaxAbs(B), Eps(6)))))
C_Violated(s, e) ==
    CASE e.op \in {"glsw", "probe"} ->
      LET p == NC(e.A) IN
      IF ~(e.init.ok /\ e.init.v.t = "none" /\ HasShape(e.G, p, p) /\ HasShape(e.res, NR(e.N), p)) THEN {"trained"} ELSE
      LET C == Cov(e)
          lam0 == SymEigVals(C)
          lam == Force([i \in 1..p |-> FMax(lam0[i], F0)])
          G == e.G.v.d
          k == IF e.n < p THEN e.n ELSE p
          clear == k = p \/ FLt(FMul(Eps(6), lam[1]), FSub(lam[k], lam[k + 1]))     \* the k dominant directions are determined
      IN IF e.op = "probe" THEN
              Clauses(<< <<"weights-belong-to-their-directions", MNear(MMul(MMul(G, MAdd(MScale(MMul(C, C), FDiv(F1, e.alpha)), MId(p))), G), MId(p), Eps(5))>> >>)
         ELSE Clauses(<<
            <<"symmetric", MSymmetric(G, Tol)>>,
            <<"transform-multiplies", MatNear(e.res, MMul(e.N, G), Eps(9))>>,
            <<"eigenvectors-of-the-covariance", (e.epo /\ ~clear) \/ Commute(C, G, Tol)>>,
            <<"weights", e.epo \/ LET w == SymEigVals(G)
                                      want == VSortDesc(Force([i \in 1..p |-> Weight(lam[i], e.alpha)]))
                                  IN \A i \in 1..p : FClose(w[i], want[i], Eps(6), Eps(4))>>,
            <<"projector", ~e.epo \/ MNear(MMul(G, G), G, Tol)>>,
            <<"rank", ~e.epo \/ FClose(MTrace(G), FInt(k), Eps(6), F0)>>,
            <<"dominant-directions", ~e.epo \/ FClose(MTrace(MMul(C, G)), TopSum(lam, k), FMul(Eps(6), FSum(lam)), F0)>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
