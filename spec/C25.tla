-------------------------------- MODULE C25 --------------------------------
EXTENDS Fourier, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
Tol(X) == FMul(Eps(12), FMul(FAdd(MMaxAbs(X), FTen(-300)), FInt(NC(X))))
Width(mode, n) == IF mode \in {"pairs", "amplangle"} THEN n ELSE n \div 2 + 1
\* the rows of the result are the spectra of the rows of the input, cyclically ordered
Rot(i, k, n) == ((i - 1 + k) % n) + 1
RowsAre(e, H, k) == \A i \in 1..NR(e.X) : RowForm(e.mode, e.res.v.d[Rot(i, k, NR(e.X))], H[i], NC(e.X), Tol(e.X))
Spectra(e) == Force([i \in 1..NR(e.X) |-> Half(e.X[i], e.ortho)])
C_Violated(s, e) ==
    CASE e.op = "fft" ->
           IF ~HasShape(e.res, NR(e.X), Width(e.mode, NC(e.X))) THEN {"half-spectrum-shape"} ELSE
           LET H == Spectra(e) IN Clauses(<< <<"half-spectrum-" \o e.mode, \E k \in 0..(NR(e.X) - 1) : RowsAre(e, H, k)>> >>)
      [] e.op = "probe" -> Clauses(<< <<"row-order", IsMat(e.res) /\ RowsAre(e, Spectra(e), 0)>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
