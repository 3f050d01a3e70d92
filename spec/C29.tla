-------------------------------- MODULE C29 --------------------------------
(* The description reports the parameters in force; debugging output, asking  *)
(* for a description and the debug switch leave model and answers alone.      *)
EXTENDS Describe, Obs, Conform
C_InitSt == DInit("PCA")
Succ(e) == e.res.ok
Moved(s, e) == IF e.a = "new" THEN DInit(e.cls)
               ELSE IF e.a = "train" /\ ~Succ(e) THEN [s EXCEPT !.model = None]
               ELSE DStep(s, [a |-> e.a, n |-> e.n, v |-> e.v, d |-> e.d])
C_NextSt(s, e) == IF e.op # "step" THEN s ELSE LET t == Moved(s, e) IN
    [t EXCEPT !.seen = IF Describes(e.cls) THEN @ \cup {[k |-> Key(t), t |-> e.txt]} ELSE @,
              !.known = IF \E x \in @ : x.k = AKey(t) THEN @ ELSE @ \cup {[k |-> AKey(t), a |-> e.ans]}]
SameVal(x, y) ==
    /\ x.ok = y.ok
    /\ x.ok => x.v.t = y.v.t /\ (x.v.t = "mat" => MatNear(x, y.v.d, FMul(Eps(8), FMax(FInt(1), MMaxAbs(y.v.d)))))
SameAll(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i].n = y[i].n /\ SameVal(x[i].o, y[i].o)
Old(s, k) == (CHOOSE x \in s.known : x.k = k).a
C_Violated(s, e) ==
    IF e.op # "step" THEN {"unexpected-event"} ELSE
    LET t == Moved(s, e)  b == Key(t) IN
    Clauses(<<
        <<"specification-and-case-agree", e.vals = t.vals /\ e.model = t.model /\ e.dbg = t.dbg>>,
        <<"debug-switch-stored", HasDebug(e.cls) => e.got = t.dbg>>,
        <<"model-kept-or-dropped", e.cls \in PlainP \/ e.has = (t.model # None)>>,
        <<"same-parameters-same-description", ~Describes(e.cls) \/ \A x \in s.seen : e.a = "new" \/ x.k # b \/ x.t = e.txt>>,
        <<"other-parameters-other-description", ~Describes(e.cls) \/ \A x \in s.seen : e.a = "new" \/ x.k = b \/ x.t # e.txt>>,
        <<"description-is-repeatable", e.txt = e.txt2>>,
        <<"diagnostics-leave-answers", e.a = "new" \/ ~(\E x \in s.known : x.k = AKey(t)) \/ SameAll(e.ans, Old(s, AKey(t)))>>,
        <<"silent-without-debug", t.dbg \/ ~e.printed>> >>)
=============================================================================
