-------------------------------- MODULE C06 --------------------------------
(* Transformations follow their life cycle: answers are those of a fresh object configured with the expected data. *)
EXTENDS TLife, Obs, Conform
C_InitSt == TInit
C_NextSt(s, e) == IF e.op = "step" THEN TNext(e.own, s, e) ELSE s
SameOut(x, y) == x.ok = y.ok /\ (x.ok => (x.v.t = y.v.t /\ (x.v.t = "mat" => MatNear(x, y.v.d, Eps(12)))))
C_Violated(s, e) ==
    CASE e.op = "step" /\ Refused(e) -> Clauses(<< <<"unusable-data-refused", Raised(e.res)>> >>)
      [] e.op = "step" /\ e.a \in {"T", "I"} ->
           LET q == Answers(e.own, s, e) IN
           Clauses(<< <<"model-and-walk-agree", q.cfg = e.cfg /\ q.par = e.par>>,
                      <<IF e.a = "T" THEN "transformed-with-expected-configuration" ELSE "inverted-with-expected-configuration", SameOut(e.res, e.ref)>>,
                      <<"explicit-and-implicit-configuration-agree", SameOut(e.ref, e.ref2)>> >>)
      [] e.op = "short" -> Clauses(<< <<"one-call-form-is-a-fresh-object", SameOut(e.res, e.ref)>> >>)
      [] e.op = "use" -> Clauses(<< <<"accepted", e.res.ok>> >>)
      [] e.op = "step" -> Clauses(<< <<"accepted", e.res.ok>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
