-------------------------------- MODULE C02 --------------------------------
(***************************************************************************)
(* Retraining forgets the past: after any history a training call gives the *)
(* model of a new object.  The reference (ref) is what a new object with    *)
(* the same parameters gave for the same data; for DIPLS, whose centres     *)
(* stay those of the first data set (recorded finding), a new object that   *)
(* saw that data set before - except in the probe.                          *)
(***************************************************************************)
EXTENDS ALife, Obs, Conform
C_InitSt == AInit
Succ(r) == r.ok /\ r.v.t # "str"
C_NextSt(s, e) == IF e.op = "step" THEN ANext(s, e, Succ(e.res)) ELSE s
Scale(A) == FMax(FInt(1), MMaxAbs(A))
SameVal(x, y) ==
    /\ x.ok = y.ok
    /\ x.ok => x.v.t = y.v.t /\ (x.v.t = "mat" => MatNear(x, y.v.d, FMul(Eps(8), Scale(y.v.d))))
SameAll(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i].n = y[i].n /\ SameVal(x[i].o, y[i].o)
C_Violated(s, e) ==
    CASE e.op = "step" /\ e.a = "G" /\ e.probe ->
           Clauses(<< <<"same-as-a-new-object", SameVal(e.res, e.ref) /\ SameAll(e.ans, e.refans) /\ SameAll(e.mats, e.refmats)>> >>)
      [] e.op = "step" /\ e.a = "G" ->
           Clauses(<< <<"specification-and-case-agree", e.p = s.p /\ (e.cls = "DIPLS" /\ ~e.probe => e.via = s.first)>>,
                      <<"training-outcome", SameVal(e.res, e.ref)>>,
                      <<"same-answers", SameAll(e.ans, e.refans)>>,
                      <<"same-matrices", SameAll(e.mats, e.refmats)>> >>)
      [] e.op = "step" -> {}
      [] OTHER -> {"unexpected-event"}
=============================================================================
