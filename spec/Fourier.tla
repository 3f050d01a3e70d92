------------------------------ MODULE Fourier ------------------------------
(***************************************************************************)
(* Half spectrum of the discrete Fourier transformation of a row and its    *)
(* output forms.                                                            *)
(***************************************************************************)
EXTENDS Obs
FPi == FAtan2(F0, FInt(-1))
\* F_k of the row x, k = 0..n/2
Bin(x, k, ortho) ==
    LET n == Len(x)
        w == FDiv(FMul(FInt(-2), FPi), FInt(n))
        re == FSum(Force([j \in 1..n |-> FMul(x[j], FCos(FMul(w, FInt((k * (j - 1)) % n))))]))
        im == FSum(Force([j \in 1..n |-> FMul(x[j], FSin(FMul(w, FInt((k * (j - 1)) % n))))]))
        s == IF ortho THEN FDiv(F1, FSqrt(FInt(n))) ELSE F1
        real == k = 0 \/ 2 * k = n
    IN <<FMul(re, s), IF real THEN F0 ELSE FMul(im, s)>>
Half(x, ortho) == Force([k \in 1..(Len(x) \div 2 + 1) |-> Bin(x, k - 1, ortho)])
IsRealBin(n, k) == k = 1 \/ 2 * (k - 1) = n           \* k-th of the half spectrum, from 1
FAmp(z) == FSqrt(FAdd(FSqr(z[1]), FSqr(z[2])))
\* an angle is compared through the point it designates
AngleOk(a, z, tol) == LET m == FAmp(z) IN
    /\ FLe(FAbs(a), FMul(FPi, FAdd(F1, FTen(-12))))
    /\ FClose(FMul(m, FCos(a)), z[1], tol, F0) /\ FClose(FMul(m, FSin(a)), z[2], tol, F0)
\* pairs: the zero term, two numbers per further bin, the Nyquist term of even widths
PairsOk(y, H, n, Ok(_, _, _)) == Len(y) = n /\ \A k \in 1..Len(H) :
    IF k = 1 THEN Ok(<<y[1]>>, H[1], TRUE)
    ELSE IF IsRealBin(n, k) THEN Ok(<<y[n]>>, H[k], TRUE)
    ELSE Ok(<<y[2 * k - 2], y[2 * k - 1]>>, H[k], FALSE)
\* output row y has the form 'mode' of the spectrum H of a row of length n
RowForm(mode, y, H, n, tol) ==
    CASE mode = "real" -> Len(y) = Len(H) /\ \A k \in 1..Len(H) : FClose(y[k], H[k][1], tol, F0)
      [] mode = "imag" -> Len(y) = Len(H) /\ \A k \in 1..Len(H) : FClose(y[k], H[k][2], tol, F0) /\ (IsRealBin(n, k) => FEq(y[k], F0))
      [] mode = "ampl" -> Len(y) = Len(H) /\ \A k \in 1..Len(H) : FClose(y[k], FAmp(H[k]), tol, F0)
      [] mode = "angle" -> Len(y) = Len(H) /\ \A k \in 1..Len(H) : AngleOk(y[k], H[k], tol)
      [] mode = "pairs" -> PairsOk(y, H, n, LAMBDA v, z, one : FClose(v[1], z[1], tol, F0) /\ (one \/ FClose(v[2], z[2], tol, F0)))
      [] OTHER -> PairsOk(y, H, n, LAMBDA v, z, one : IF one THEN FClose(v[1], z[1], tol, F0)
                                                         ELSE FClose(v[1], FAmp(z), tol, F0) /\ AngleOk(v[2], z, tol))
=============================================================================
