-------------------------------- MODULE C20 --------------------------------
EXTENDS Serial, Conform
C_InitSt == 0
C_NextSt(s, e) == s
Bytes(r) == r.ok /\ r.v.t = "bytes"
RECURSIVE MatsBytes(_)
MatsBytes(ms) == IF ms = <<>> THEN <<>> ELSE MatBytes(NR(Head(ms)), NC(Head(ms)), Head(ms)) \o MatsBytes(Tail(ms))
C_Violated(s, e) ==
    CASE e.op = "int" -> Clauses(<<<<"int-layout", Bytes(e.res) /\ e.res.v.y = IntBytes(e.n)>>>>)
      [] e.op = "int-range" -> Clauses(<<<<"int-out-of-range-refused", Raised(e.res)>>>>)
      [] e.op = "real" -> Clauses(<<<<"real-layout", Bytes(e.res) /\ e.res.v.y = RealBytes(e.x)>>>>)
      [] e.op = "str" -> Clauses(<<<<"string-layout", Bytes(e.res) /\ e.res.v.y = StrBytes(e.cs)>>>>)
      [] e.op = "other-type" -> Clauses(<<<<"other-types-refused", Raised(e.res)>>>>)
      [] e.op = "big" -> Clauses(<<<<"big-int-layout", Bytes(e.res) /\ Len(e.res.v.y) > 4 /\
                LET y == e.res.v.y  b == SubSeq(y, 5, Len(y)) IN SubSeq(y, 1, 4) = IntBytes(Len(b)) /\ Extend(b, Len(e.wide)) = e.wide>>>>)
      [] e.op = "state" -> Clauses(<<     \* an object that has the matrices mats (in this order) to write
            <<"stream-layout:" \o e.cls, Bytes(e.stream) /\ e.stream.v.y = e.prefix \o MatsBytes(e.mats)>>,
            <<"file-layout:" \o e.cls, e.saved.ok /\ e.file = e.prefix \o MatsBytes(e.mats)>>,
            <<"again-the-same:" \o e.cls, Bytes(e.stream2) /\ e.stream2.v.y = e.stream.v.y>>>>)
      [] e.op = "log" -> Clauses(<<<<"log-layout", Bytes(e.res) /\ e.res.v.y = RealsBytes(<<e.base, e.factor, e.offset>>)>>,
                                   <<"log-factor", FClose(e.factor, FDiv(F1, FLn(e.base)), F0, Eps(14))>>>>)
      [] e.op = "nothing" -> Clauses(<<<<"nothing-to-serialise-refused:" \o e.cls, Raised(e.res) /\ Raised(e.saved)>>>>)
      [] e.op = "probe-get" -> Clauses(<<<<"serialised-state-as-bytes", Bytes(e.res) /\ e.res.v.y = e.stream>>>>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
