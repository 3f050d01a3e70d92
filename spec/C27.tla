-------------------------------- MODULE C27 --------------------------------
EXTENDS Factory, Conform
C_InitSt == <<>>
C_NextSt(s, e) == IF e.op = "random" /\ IsMat(e.res) THEN Append(s, [key |-> Key(e), d |-> e.res.v.d, kind |-> e.kind, seed |-> e.seed, mean |-> e.mean, std |-> e.std]) ELSE s
C_Violated(s, e) ==
    CASE e.op = "build" -> LET w == Built(e) IN Clauses(<<
              <<"contents-and-shape:" \o e.m, MatIs(e.res, w) \/ (IsMat(e.res) /\ MatNear(e.res, w, F0))>>,
              \* (the class itself wraps the array it is given; only the factory copies)
              <<"independent-of-its-source:" \o e.m, e.m \in {"matrix_0d", "matrix_1d", "matrix_2d"} \/ MClose(e.after, w, F0, F0)>>,
              <<"source-untouched:" \o e.m, e.srcok>>>>)
      [] e.op = "refused" -> Clauses(<<<<"refused:" \o e.m, Raised(e.res)>>>>)
      [] e.op = "random" -> Clauses(<<
              <<"random-shape", HasShape(e.res, e.r, e.c)>>,
              <<"same-request-same-matrix", ~IsMat(e.res) \/ \A k \in KnownFor(s, e) : s[k].d = e.res.v.d>>,
              <<"finite", ~IsMat(e.res) \/ AllFinite(e.res.v.d)>>,
              <<"seeds-differ", ~IsMat(e.res) \/ e.r * e.c < 2 \/
                    \A k \in 1..Len(s) : ~(s[k].kind = e.kind /\ s[k].seed # e.seed /\ s[k].mean = e.mean /\ s[k].std = e.std /\ SameShape(s[k].d, e.res.v.d)) \/ s[k].d # e.res.v.d>>,
              <<"elements-vary", ~IsMat(e.res) \/ e.r * e.c < 3 \/ ~(\A i \in 1..e.r : \A j \in 1..e.c : e.res.v.d[i][j] = e.res.v.d[1][1])>>,
              <<"uniform-range", ~(IsMat(e.res) /\ e.kind = "rand") \/ \A i \in 1..e.r : \A j \in 1..e.c : FLe(F0, e.res.v.d[i][j]) /\ FLt(e.res.v.d[i][j], F1)>>>>)
      [] e.op = "noise" -> {}
      [] e.op = "probe-normal" ->    \* many values of a normal distribution: sample mean and deviation as requested
            Clauses(<<<<"normal-mean-and-deviation", IsMat(e.res) /\ LET v == Flat(e.res.v.d) IN
                          /\ FLt(FAbs(FSub(VMean(v), e.mean)), FMul(FInt(4), FDiv(e.std, FSqrt(FInt(Len(v))))))
                          /\ FLt(FAbs(FSub(FDiv(VStd(v), e.std), F1)), FRat(1, 4))>>>>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
