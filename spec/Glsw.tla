-------------------------------- MODULE Glsw --------------------------------
(***************************************************************************)
(* Generalised least squares weighting and external parameter               *)
(* orthogonalisation.                                                       *)
(***************************************************************************)
EXTENDS SavGol
DiffCov(x1, x2) == LET D == MSub(Centered(x2), Centered(x1)) IN MMul(MT(D), D)
\* rows in order of the response (stable); y without ties, or ties in original order
OrderBy(y) == SortSeq(Upto(Len(y)), LAMBDA i, j : FLt(y[i], y[j]) \/ (FEq(y[i], y[j]) /\ i < j))
GradCov(X, y) ==
    LET o == OrderBy(y)
        Xg == Gradient5(MRows(X, o))
        yg == Col(Gradient5(MRows(ColVec(y), o)), 1)
        sd == VStd(yg)
        W == Force([i \in 1..Len(yg) |-> FPow(F2, FNeg(FDiv(yg[i], sd)))])
        XW == Force([i \in 1..NR(Xg) |-> VScale(Xg[i], W[i])])
    IN MMul(MT(XW), XW)
Weight(s, alpha) == FDiv(F1, FSqrt(FAdd(FDiv(FSqr(s), alpha), F1)))
=============================================================================
