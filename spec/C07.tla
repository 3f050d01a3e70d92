-------------------------------- MODULE C07 --------------------------------
(* The inverse transformation restores the data, or there is none. *)
EXTENDS Transform, Conform
C_InitSt == [x |-> 0]
C_NextSt(s, e) == s
\* rounding is relative to the largest number involved
Restored(r, X, cfg, tol) ==
    /\ HasShape(r, NR(X), NC(X))
    /\ MClose(r.v.d, X, FMul(tol, FMax(MMaxAbs(X), MMaxAbs(cfg))), F0)
TolOf(cls) == CASE cls \in {"Center", "Standardize", "RobustScaler"} -> Eps(12)
                [] cls = "PassThrough" -> F0
                [] cls = "FFT" -> Eps(12)
                [] cls = "Log" -> Eps(11)
                [] OTHER -> Eps(6)
C_Violated(s, e) ==
    CASE e.op = "round" ->
           Clauses(<< <<"transformed-without-error", IsMat(e.fwd)>>,
                      <<"inverse-restores-configuration-data", Restored(e.inv0, e.cfg, e.scale0, TolOf(e.cls))>>,
                      <<"inverse-restores-other-data", e.only0 \/ Restored(e.inv, e.data, e.scale, TolOf(e.cls))>> >>)
      [] e.op = "none" -> Clauses(<< <<"no-inverse-refused", Raised(e.inv)>> >>)
      \* a transformation either restores the data or says that it cannot
      [] e.op = "either" -> Clauses(<< <<"restored-or-refused", Raised(e.inv) \/ Restored(e.inv, e.data, e.scale, TolOf(e.cls))>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
