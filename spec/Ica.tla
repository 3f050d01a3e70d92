-------------------------------- MODULE Ica --------------------------------
(***************************************************************************)
(* FastICA: contrast functions and the two fixed point iterations, on data  *)
(* with one row per (whitened) feature and one column per observation.      *)
(***************************************************************************)
EXTENDS Obs
Half == FRat(1, 2)
GaussE(x) == FExp(FNeg(FMul(Half, FSqr(x))))
\* value and derivative
Gv(f, al, x) == CASE f = "LogCosH" -> FTanh(FMul(al, x)) [] f = "Cube" -> FMul(x, FSqr(x)) [] OTHER -> FMul(x, GaussE(x))
Gd(f, al, x) == CASE f = "LogCosH" -> FMul(al, FSub(F1, FSqr(FTanh(FMul(al, x)))))
                  [] f = "Cube" -> FMul(FInt(3), FSqr(x))
                  [] OTHER -> FMul(FSub(F1, FSqr(x)), GaussE(x))
GvM(f, al, A) == MMap(A, LAMBDA x : Gv(f, al, x))
GdMeans(f, al, A) == Force([i \in 1..NR(A) |-> VMean(Force([j \in 1..NC(A) |-> Gd(f, al, A[i][j])]))])
ScaleEachRow(A, v) == Force([i \in 1..NR(A) |-> VScale(A[i], v[i])])
\* (A A')^(-1/2) A
Decor(A) == MMul(SymFun(MMul(A, MT(A)), LAMBDA x : FDiv(F1, FSqrt(x))), A)
\* one direction by deflation: remove what lies along the earlier rows of W
Without(w, W) == IF W = <<>> THEN w ELSE VSub(w, TVec(W, MVec(W, w)))
RECURSIVE OneUnit(_, _, _, _, _, _)
OneUnit(X, w, W, par, it, worst) ==
    IF it = par.maxIter THEN [w |-> w, it |-> it, worst |-> worst] ELSE
    LET y == TVec(X, w)
        g == Force([j \in 1..Len(y) |-> Gv(par.f, par.al, y[j])])
        gd == VMean(Force([j \in 1..Len(y) |-> Gd(par.f, par.al, y[j])]))
        w1 == VSub(VScale(MVec(X, g), FRat(1, Len(y))), VScale(w, gd))
        w2 == Without(w1, W)
        w3 == VUnit(w2)
        lim == FAbs(FSub(FAbs(FDot(w3, w)), F1))
        c == FMin(worst, FDiv(Norm2(w2), Norm2(w1)))      \* how much cancelled
    IN IF FLt(lim, par.tol) THEN [w |-> w3, it |-> it + 1, worst |-> c] ELSE OneUnit(X, w3, W, par, it + 1, c)
RECURSIVE DeflGo(_, _, _, _, _, _, _)
DeflGo(X, W0, par, j, W, it, worst) ==
    IF j > NR(W0) THEN [W |-> W, it |-> it, worst |-> worst]
    ELSE LET r == OneUnit(X, VUnit(W0[j]), W, par, 0, worst) IN DeflGo(X, W0, par, j + 1, Append(W, r.w), IF r.it > it THEN r.it ELSE it, r.worst)
Deflation(X, W0, par) == DeflGo(X, W0, par, 1, <<>>, 0, F1)
DiagAbsGap(A) == VMaxAbs(Force([i \in 1..NR(A) |-> FSub(FAbs(A[i][i]), F1)]))
RECURSIVE ParGo(_, _, _, _, _)
\* as implemented, the contrast is evaluated on W'X
ParGo(X, W, par, it, worst) ==
    IF it = par.maxIter THEN [W |-> W, it |-> it, worst |-> worst] ELSE
    LET Y == MMul(MT(W), X)
        A == MSub(MScale(MMul(GvM(par.f, par.al, Y), MT(X)), FRat(1, NC(X))), ScaleEachRow(W, GdMeans(par.f, par.al, Y)))
        ev == SymEigVals(MMul(A, MT(A)))
        W1 == Decor(A)
        lim == DiagAbsGap(MMul(W1, MT(W)))
        c == FMin(worst, FSqrt(FDiv(FMax(ev[Len(ev)], F0), ev[1])))
    IN IF FLt(lim, par.tol) THEN [W |-> W1, it |-> it + 1, worst |-> c] ELSE ParGo(X, W1, par, it + 1, c)
ParallelIca(X, W0, par) == ParGo(X, Decor(W0), par, 0, F1)
=============================================================================
