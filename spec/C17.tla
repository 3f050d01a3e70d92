-------------------------------- MODULE C17 --------------------------------
EXTENDS Cca, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
Tol == Eps(7)
C_Violated(s, e) ==
    CASE e.op = "cca" ->
      LET p == NC(e.X)  q == NC(e.Y)  mn == IF p < q THEN p ELSE q IN
      IF e.k > mn THEN Clauses(<<
            <<"too-many-directions-refused", Raised(e.init) \/ (e.init.ok /\ e.init.v.t = "str" /\ e.init.v.s # "")>>,
            <<"no-answer-after-refusal", Raised(e.res) /\ Raised(e.resY)>> >>)
      ELSE IF ~(e.init.ok /\ e.init.v.t = "none" /\ HasShape(e.P, p, e.k) /\ HasShape(e.Q, q, e.k)) THEN {"trained"} ELSE
      LET X == Centered(e.X)  Y == Centered(e.Y)
          Cx == Reg(X, e.lx)  Cy == Reg(Y, e.ly)
          P == e.P.v.d  Q == e.Q.v.d
          D == MMul(MMul(MMul(MT(P), MT(X)), Y), Q)
          sg == Force([i \in 1..e.k |-> D[i][i]])
          top == CanonicalSq(X, Y, e.lx, e.ly)
      IN Clauses(<<
            <<"x-directions-orthonormal", MNear(MMul(MMul(MT(P), Cx), P), MId(e.k), Tol)>>,
            <<"y-directions-orthonormal", MNear(MMul(MMul(MT(Q), Cy), Q), MId(e.k), Tol)>>,
            <<"cross-covariance-diagonal", MNear(D, MDiag(sg), Tol)>>,
            <<"correlations-nonnegative-decreasing", /\ \A i \in 1..e.k : FLe(FNeg(Tol), sg[i])
                                                     /\ \A i \in 1..(e.k - 1) : FLe(sg[i + 1], FAdd(sg[i], Tol))>>,
            <<"largest-correlations", \A i \in 1..e.k : FClose(FSqr(sg[i]), top[i], Eps(6), F0)>>,
            <<"transform", MatNear(e.res, MMul(SubRowVec(e.N, ColMeans(e.X)), P), Eps(9))>>,
            <<"transform-response", MatNear(e.resY, MMul(SubRowVec(e.NY, ColMeans(e.Y)), Q), Eps(9))>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
