-------------------------------- MODULE C01 --------------------------------
(* No result without a successfully trained model. *)
EXTENDS ALife, Obs, Conform
C_InitSt == AInit
Succ(r) == r.ok /\ r.t # "str"
After(s, e) == ANext(s, e, Succ(e.res))
C_NextSt(s, e) == IF e.op = "step" THEN After(s, e) ELSE s
AllOk(x) == \A i \in 1..Len(x) : x[i].ok
NoneOk(x) == \A i \in 1..Len(x) : ~x[i].ok
C_Violated(s, e) ==
    CASE e.op = "step" ->
           LET n == After(s, e) IN
           Clauses(<< <<"good-data-accepted", e.a = "G" => Succ(e.res)>>,
                      <<"unusable-data-refused", e.a = "B" => ~Succ(e.res) /\ e.res.err # "TIMEOUT">>,
                      <<"failure-reported", e.a = "F" /\ e.fired => ~Succ(e.res)>>,
                      <<"undisturbed-training-accepted", e.a = "F" /\ ~e.fired => Succ(e.res)>>,
                      <<"invalid-value-refused", e.a = "V" => ~e.res.ok>>,
                      <<"valid-value-accepted", e.a \in {"P", "R"} => e.res.ok>>,
                      <<"status-agrees", e.init = Holds(n)>>,
                      <<"answers-with-model", Holds(n) => AllOk(e.req)>>,
                      <<"refuses-without-model", ~Holds(n) => NoneOk(e.req)>>,
                      <<"matrices-with-model", Holds(n) => \A i \in 1..Len(e.mats) : e.mats[i].ok /\ e.mats[i].t = "mat">>,
                      <<"loadings-as-announced", \A i \in 1..Len(e.caps) : LET c == e.caps[i] IN
                            /\ c.load.ok /\ c.load.t = IF c.h /\ Holds(n) THEN "mat" ELSE "none"
                            /\ ~Holds(n) \/ (c.c = \A j \in 1..Len(e.req) : e.req[j].n = "predict" => e.req[j].ok)
                            /\ ~c.other.ok \/ c.other.t = "none">>,
                      <<"no-matrices-without-model", ~Holds(n) /\ e.cls \notin UnsupAlgs => \A i \in 1..Len(e.mats) : ~e.mats[i].ok \/ e.mats[i].t = "none">> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
