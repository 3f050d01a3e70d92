-------------------------------- MODULE C26 --------------------------------
EXTENDS Msc, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
C_Violated(s, e) ==
    CASE e.op = "correct" ->
           LET exp == Correct(Average(e.cfg), e.filt, e.X, e.ranges) IN
           IF ~HasShape(e.res, NR(e.X), 2) THEN {"spectrum-shape"} ELSE
           Clauses(<< <<"corrected-amplitudes", MNear(e.res.v.d, exp, FMax(Eps(9), FMul(Eps(13), CorrectCond(Average(e.cfg), e.filt, e.ranges))))>>,
                      <<"wave-numbers-unchanged", Col(e.res.v.d, 1) = Col(e.X, 1)>>,
                      <<"outside-unchanged", \A i \in 1..NR(e.X) : (\A k \in 1..Len(e.ranges) : ~InRange(e.ranges[k], e.X[i][1])) => e.res.v.d[i] = e.X[i]>> >>)
      [] e.op = "build" ->
           IF e.spectra = <<>> THEN Clauses(<< <<"no-spectra-refused", Raised(e.res)>> >>)
           ELSE LET n == NR(e.spectra[1]) IN
                Clauses(<< <<"configuration-matrix", MatIs(e.res, [i \in 1..n |-> <<e.spectra[1][i][1]>> \o [k \in 1..Len(e.spectra) |-> e.spectra[k][i][2]]])>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
