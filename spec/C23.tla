-------------------------------- MODULE C23 --------------------------------
(***************************************************************************)
(* Preprocessing.  An algorithm trained with centring or standardising       *)
(* behaves like one trained without on data preprocessed by hand (Xh, Yh,    *)
(* Nh; checked here against the definition), its predictions mapped back      *)
(* with the mean and deviation of each response column.  Without             *)
(* preprocessing nothing is shifted or scaled: the algorithms that have no    *)
(* intercept of their own send zero rows to zero and twice a row to twice     *)
(* its image.                                                                 *)
(***************************************************************************)
EXTENDS Transform, Conform
C_InitSt == 0
C_NextSt(s, e) == s
Shift(A, pre) == IF pre = "none" THEN [j \in 1..NC(A) |-> F0] ELSE ColMeans(A)
Devs(A, pre) == IF pre = "standardize" THEN Devs1(A) ELSE [j \in 1..NC(A) |-> F1]
ByHand(A, cfg, pre) == DivRowVec(SubRowVec(A, Shift(cfg, pre)), Devs(cfg, pre))
Restored(P, Y, pre) == AddRowVec(MulRowVec(P, Devs(Y, pre)), Shift(Y, pre))
NoIntercept == {"SIMPLS", "PLS1", "OPLS", "VCPLS"}
Bound(A) == FAdd(F1, MMaxAbs(A))
\* every column is compared on its own scale
NearCols(r, A, tol) ==
    /\ IsMat(r) /\ r.v.r = NR(A) /\ r.v.c = NC(A)
    /\ \A j \in 1..NC(A) : MNearRel(MCol(r.v.d, j), MCol(A, j), tol)
\* on the scale of the training responses R
ColsNear(P, A, R, tol) == \A j \in 1..NC(A) : LET a == MCol(A, j)  p == MCol(P, j) IN MClose(p, a, FMul(tol, FMax(MMaxAbs(MCol(R, j)), FMax(MMaxAbs(a), MMaxAbs(p)))), F0)
\* rounding of hand-made data: relative to the data before the mean was subtracted
HandOk(H, A, cfg, pre) ==
    /\ NR(H) = NR(A) /\ NC(H) = NC(A)
    /\ LET W == ByHand(A, cfg, pre)
           d == Devs(cfg, pre)
       IN \A j \in 1..NC(A) : MClose(MCol(H, j), MCol(W, j), FMul(Eps(12), FDiv(FMax(MMaxAbs(MCol(A, j)), MMaxAbs(MCol(cfg, j))), d[j])), F0)
\* iterative and eigenvector-based algorithms amplify the rounding differences between the two ways
Tol(e) == IF e.cls \in {"KernelPLS", "VCPLS"} THEN Eps(3) ELSE IF e.cls \in {"NIPALS", "CCARegression", "SparsePLS", "PRM"} THEN Eps(5) ELSE Eps(6)
\* the direction of an eigenvector is arbitrary, and so is that of a component no direction is preferred for
SameScores(e) ==
    IF e.cls \notin {"VCPLS", "NIPALS", "CCARegression", "KernelPLS"} THEN MatNear(e.trans, e.transh.v.d, FMul(Tol(e), FMin(F1, MMaxAbs(e.transh.v.d))))
    ELSE /\ IsMat(e.trans) /\ SameShape(e.trans.v.d, e.transh.v.d)
         /\ \A j \in 1..NC(e.transh.v.d) : VNearSign(Col(e.trans.v.d, j), Col(e.transh.v.d, j), Tol(e))
C_Violated(s, e) ==
    CASE e.op = "prep" -> Clauses(<<
            <<"HARNESS-hand-made-data", HandOk(e.Xh, e.X, e.X, e.pre) /\ HandOk(e.Yh, e.Y, e.Y, e.pre) /\ HandOk(e.Nh, e.N, e.X, e.pre)>>,
            <<"training-outcome", e.init.ok = e.inith.ok /\ (e.init.ok => e.init.v.t = e.inith.v.t)>>,
            <<"predictions-mapped-back", e.pred.ok = e.predh.ok /\ (IsMat(e.predh) =>
                  LET W == Restored(e.predh.v.d, e.Y, e.pre) IN
                  IsMat(e.pred) /\ e.pred.v.r = NR(W) /\ e.pred.v.c = NC(W) /\ ColsNear(ByHand(e.pred.v.d, e.Y, e.pre), e.predh.v.d, e.Yh, Tol(e)))>>,
            <<"new-data-preprocessed-with-the-training-values", e.trans.ok = e.transh.ok /\ (IsMat(e.transh) => SameScores(e))>>,
            <<"one-prediction-per-response", IsMat(e.pred) => e.pred.v.r = NR(e.N) /\ e.pred.v.c = NC(e.Y)>> >>)
      [] e.op = "raw" -> Clauses(<<
            <<"no-shift", (e.cls \in NoIntercept) => (IsMat(e.zero) /\ MMaxAbs(e.zero.v.d) = F0 /\ IsMat(e.zerot) /\ MMaxAbs(e.zerot.v.d) = F0)>>,
            <<"no-scale", (e.cls \in NoIntercept /\ IsMat(e.pred) /\ IsMat(e.trans)) =>
                  (MatNearRel(e.twice, MMap(e.pred.v.d, LAMBDA x : FMul(F2, x)), Eps(10)) /\ MatNearRel(e.twicet, MMap(e.trans.v.d, LAMBDA x : FMul(F2, x)), Eps(10)))>>,
            <<"intercept-only", (e.cls \notin NoIntercept /\ e.cls # "KernelPLS") =>
                  \* affine in the new data: f(2x) - f(x) = f(x) - f(0)
                  (IsMat(e.zero) /\ IsMat(e.pred) /\ IsMat(e.twice)
                   /\ MatNear(e.twice, MBuild(NR(e.N), NC(e.Y), LAMBDA i, j : FSub(FMul(F2, e.pred.v.d[i][j]), e.zero.v.d[i][j])), Eps(8)))>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
