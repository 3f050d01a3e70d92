-------------------------------- MODULE C08 --------------------------------
(* Definitions of the column and row transformations. *)
EXTENDS Transform, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s

\* rounding errors of the mean are divided by the deviation
ScaledClose(cfg, res, exp) ==
    LET d == Devs1(cfg)
        B == MT(cfg)
    IN \A j \in 1..NC(exp) :
          LET t == FMul(Eps(12), FAdd(F1, FDiv(FMax(VMaxAbs(B[j]), VMaxAbs(Col(exp, j))), FMin(F1, d[j])))) IN
          \A i \in 1..NR(exp) : FClose(res[i][j], exp[i][j], t, Eps(12))
ScaledRowsClose(X, res, exp) ==
    \A i \in 1..NR(exp) :
          LET t == FMul(Eps(12), FAdd(F1, FDiv(VMaxAbs(X[i]), FMin(F1, Dev1(X[i]))))) IN
          \A j \in 1..NC(exp) : FClose(res[i][j], exp[i][j], t, Eps(12))
Shaped(r, A) == HasShape(r, NR(A), NC(A))

PowerOk(e) ==
    LET c == NC(e.cfg)
        lam == Force([j \in 1..c |-> ExponentFor(e.raw1.v.d[1][j])])
        raw(X) == Force([i \in 1..NR(X) |-> [j \in 1..c |-> PowerMap(e.method, X[i][j], lam[j])]])
        ry == raw(e.data)
        rc == raw(e.cfg)
        B == MT(e.cfg)
    IN Clauses(<<
         <<"power-shape", Shaped(e.rawres, e.data) /\ Shaped(e.res, e.data) /\ Shaped(e.own, e.cfg)>>,
         <<"power-map", Shaped(e.rawres, e.data) /\ MNear(e.rawres.v.d, ry, Eps(7))>>,
         <<"power-likelihood", \A j \in 1..c : \A d \in {FRat(-1, 2), FRat(-1, 10), FRat(1, 10), FRat(1, 2)} :
               FLe(PowerLik(e.method, B[j], FAdd(lam[j], d)),
                   FAdd(PowerLik(e.method, B[j], lam[j]), FTen(-6)))>>,
         <<"power-standardised", Shaped(e.res, e.data)
               /\ MNear(e.res.v.d, IF e.std THEN StandardizePop(rc, ry) ELSE ry, Eps(6))>>,
         <<"power-zero-mean-unit-variance", ~e.std \/ (Shaped(e.own, e.cfg) /\ \A j \in 1..c :
               FNear(VMean(Col(e.own.v.d, j)), F0, Eps(8)) /\ FNear(VarPop(Col(e.own.v.d, j)), F1, Eps(8)))>> >>)

QuantOk(e) ==
    LET c == NC(e.cfg)
        nq == IF e.nq < NR(e.cfg) THEN e.nq ELSE NR(e.cfg)
        B == MT(e.cfg)
        Q == Force([j \in 1..c |-> QuantileGrid(VSortAsc(B[j]), nq)])
        lev(y) == IF e.dist = "normal" THEN NormalCdf(y) ELSE y
        L == MMap(e.res.v.d, lev)
    IN IF ~Shaped(e.res, e.data) THEN {"quantile-shape"} ELSE Clauses(<<
         <<"quantile-level", \A j \in 1..c : \A i \in 1..NR(e.data) :
               IF StrictlyIncreasing(Q[j]) /\ nq > 1 THEN FClose(L[i][j], Level(Q[j], e.data[i][j]), Eps(6), F0)
               ELSE LevelOk(Q[j], e.data[i][j], L[i][j], Eps(6))>>,
         <<"quantile-monotone", \A j \in 1..c : Monotone(Col(e.data, j), Col(e.res.v.d, j))>>,
         <<"quantile-range", \A j \in 1..c : \A i \in 1..NR(e.data) :
               FLe(F0, L[i][j]) /\ FLe(L[i][j], F1) /\ FIsFinite(e.res.v.d[i][j])>> >>)

C_Violated(s, e) ==
    CASE e.op = "Center" ->
           Clauses(<< <<"centered", Shaped(e.res, e.data) /\ MNear(e.res.v.d, CenterOf(e.cfg, e.data), Eps(13))>>,
                      <<"configuration-data-centered", Shaped(e.own, e.cfg) /\ MNear(e.own.v.d, Centered(e.cfg), Eps(13))>> >>)
      [] e.op = "Standardize" ->
           Clauses(<< <<"standardised", Shaped(e.res, e.data) /\ ScaledClose(e.cfg, e.res.v.d, StandardizeOf(e.cfg, e.data))>>,
                      <<"configuration-data-standardised", Shaped(e.own, e.cfg) /\ ScaledClose(e.cfg, e.own.v.d, StandardizeOf(e.cfg, e.cfg))>>,
                      <<"reported-means", HasShape(e.means, 1, NC(e.cfg)) /\ MNear(e.means.v.d, <<ColMeans(e.cfg)>>, Eps(13))>>,
                      <<"reported-deviations", HasShape(e.devs, 1, NC(e.cfg)) /\ MNear(e.devs.v.d, <<Devs1(e.cfg)>>, Eps(12))>> >>)
      [] e.op = "RowNorm" ->
           Clauses(<< <<"rows-normalised", Shaped(e.res, e.data) /\ ScaledRowsClose(e.data, e.res.v.d, RowNormOf(e.data))>>,
                      <<"earlier-rows-normalised", Shaped(e.own, e.cfg) /\ ScaledRowsClose(e.cfg, e.own.v.d, RowNormOf(e.cfg))>>,
                      <<"reported-row-means", HasShape(e.means, NR(e.data), 1) /\ MNear(e.means.v.d, ColVec(RowMeans(e.data)), Eps(13))>>,
                      <<"reported-row-deviations", HasShape(e.devs, NR(e.data), 1)
                           /\ MNear(e.devs.v.d, ColVec([i \in 1..NR(e.data) |-> Dev1(e.data[i])]), Eps(12))>> >>)
      [] e.op = "Log" ->
           IF LogDefined(e.data, e.off)
           THEN Clauses(<< <<"logarithm", Shaped(e.res, e.data) /\ MNear(e.res.v.d, LogOf(e.data, e.base, e.off), Eps(12))>> >>)
           ELSE Clauses(<< <<"undefined-logarithm-refused", Raised(e.res)>> >>)
      [] e.op = "RobustScaler" ->
           Clauses(<< <<"robust-scaled", Shaped(e.res, e.data)
                          /\ MNear(e.res.v.d, RobustOf(e.cfg, e.data, e.centre, e.scale, e.lo, e.hi), Eps(10))>>,
                      <<"configuration-data-robust-scaled", Shaped(e.own, e.cfg)
                          /\ MNear(e.own.v.d, RobustOf(e.cfg, e.cfg, e.centre, e.scale, e.lo, e.hi), Eps(10))>> >>)
      [] e.op = "PowerTransformer" -> IF IsMat(e.raw1) THEN PowerOk(e) ELSE {"power-answers"}
      [] e.op = "QuantileTransformer" -> IF IsMat(e.res) THEN QuantOk(e) ELSE {"quantile-answers"}
      [] e.op = "PassThrough" -> Clauses(<< <<"passed-through", MatIs(e.res, e.data) /\ MatIs(e.own, e.cfg)>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
