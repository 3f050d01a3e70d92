-------------------------------- MODULE C05 --------------------------------
(* Parameters: documented defaults, validation, effect, invalidation.  See Params for the table and the transitions. *)
EXTENDS Params, Obs, Conform
C_InitSt == [vals |-> <<>>, model |-> None]
ActOf(e) == IF e.a = "set" THEN [a |-> "set", n |-> e.n, v |-> e.v] ELSE IF e.a = "train" THEN [a |-> "train", d |-> e.d] ELSE [a |-> e.a]
Plain(c) == c \in PlainP
After(s, e) ==
    IF e.a = "new" THEN PInit(e.cls)
    ELSE IF e.a = "train" /\ ~e.res.ok THEN [s EXCEPT !.model = None]
    ELSE PNext(e.cls, s, ActOf(e))
C_NextSt(s, e) == IF e.op = "step" THEN After(s, e) ELSE s
Scale(A) == FMax(F1, MMaxAbs(A))
SameVal(x, y) ==
    /\ x.ok = y.ok
    /\ x.ok => /\ x.v.t = y.v.t
               /\ IF x.v.t = "mat" THEN MatNear(x, y.v.d, FMul(Eps(10), Scale(y.v.d)))
                  ELSE IF x.v.t = "num" THEN FClose(x.v.f, y.v.f, Eps(12), Eps(12)) ELSE x.v = y.v
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ SameVal(a[i][2], b[i][2])
\* visibly different: beyond rounding
Differs(a, b) == Len(a) # Len(b) \/ \E i \in 1..Len(a) : a[i][2].ok # b[i][2].ok \/ (a[i][2].ok /\ (a[i][2].v.t # b[i][2].v.t
                   \/ (a[i][2].v.t = "mat" /\ ~MatNear(a[i][2], b[i][2].v.d, FMul(Eps(7), Scale(b[i][2].v.d))))
                   \/ (a[i][2].v.t = "num" /\ ~FClose(a[i][2].v.f, b[i][2].v.f, Eps(7), Eps(7)))))
Nothing(a) == \A i \in 1..Len(a) : ~a[i][2].ok \/ a[i][2].v.t \in {"none", "str"}
C_Violated(s, e) ==
    CASE e.op = "step" ->
           LET t == After(s, e)
               ok == e.a # "set" \/ Valid(e.cls, e.n, e.v)
               ign == e.a = "set" /\ ~ok /\ e.n \in DOMAIN Ignored(e.cls) /\ e.v \in Ignored(e.cls)[e.n]
           IN Clauses(<< <<"HARNESS-state", e.vals = t.vals /\ (Plain(e.cls) \/ e.model = t.model)>>,
                         <<"invalid-value-refused", e.a = "set" /\ ~ok /\ ~ign => ~e.res.ok>>,
                         <<"valid-value-accepted", (e.a = "set" /\ ok) \/ ign => e.res.ok>>,
                         <<IF e.a \in {"new", "init"} THEN "documented-defaults" ELSE IF ok THEN "value-stored" ELSE "value-kept", e.got = t.vals>>,
                         <<"model-discarded", ~Plain(e.cls) /\ t.model = None => ~e.has /\ Nothing(e.ans)>>,
                         <<IF ok THEN "training-uses-the-values" ELSE "model-kept", Plain(e.cls) \/ t.model # None => e.has /\ Same(e.ans, e.ref)>>,
                         <<"same-training-outcome", e.a = "train" => e.res.ok = e.refok>> >>)
      [] e.op = "effect" -> Clauses(<< <<"value-has-an-effect", e.v \in Par(e.cls, e.n).eff => Differs(e.ans, e.ref)>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
