-------------------------------- MODULE C09 --------------------------------
EXTENDS SavGol, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
W(e) == e.l + e.r + 1
C_Violated(s, e) ==
    CASE e.op = "weights" ->      \* the response to unit impulses is the weight vector
           IF ~HasShape(e.res, W(e), 1) THEN {"one-column-per-window"} ELSE
           LET c == Col(e.res.v.d, 1) IN
           IF W(e) = 1 THEN Clauses(<< <<"single-point-window", FEq(c[1], F1)>> >>)
           ELSE Clauses(<< <<"reproduces-polynomials", Reproduces(c, e.l, e.p, e.d, Eps(9))>>,
                           <<"weights-polynomial", PolynomialIn(c, e.p, Eps(9)) /\ WidelyPolynomial(c, e.p, Eps(9))>> >>)
      [] e.op = "smooth" ->
           IF NC(e.X) < W(e) THEN Clauses(<< <<"no-window-no-data", ~IsMat(e.res) \/ e.res.v.c = 0>> >>)
           ELSE IF ~HasShape(e.imp, W(e), 1) THEN {"one-column-per-window"} ELSE
           LET c == Col(e.imp.v.d, 1) IN
           Clauses(<< <<"sliding-window", HasShape(e.res, NR(e.X), NC(e.X) - W(e) + 1) /\ MClose(e.res.v.d, Slide(e.X, c), FMul(Eps(12), FMul(FInt(W(e)), FMul(VMaxAbs(c), MMaxAbs(e.X)))), F0)>> >>)
      [] e.op = "gradient" -> Clauses(<< <<"five-point-gradient", HasShape(e.res, NR(e.X), NC(e.X)) /\ MClose(e.res.v.d, Gradient5(e.X), FMul(Eps(13), MMaxAbs(e.X)), F0)>> >>)
      [] e.op = "refused" -> Clauses(<< <<"impossible-derivative-refused", Raised(e.res)>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
