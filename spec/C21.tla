-------------------------------- MODULE C21 --------------------------------
EXTENDS Csv, Conform
C_InitSt == 0
C_NextSt(s, e) == s
All2(A, B, P(_, _)) == SameShape(A, B) /\ \A i \in 1..NR(A) : \A j \in 1..NC(A) : P(A[i][j], B[i][j])
C_Violated(s, e) ==
    CASE e.op = "roundtrip" -> Clauses(<<
            <<"written", e.wres.ok>>,
            <<"read-back", HasShape(e.res, NR(e.a), NC(e.a))>>,
            <<"values-restored", ~HasShape(e.res, NR(e.a), NC(e.a)) \/
                (IF e.dec = -1 THEN All2(e.a, e.res.v.d, LAMBDA x, y : FClose(x, y, F0, F0))
                 ELSE IF e.sci THEN All2(e.a, e.res.v.d, LAMBDA x, y : SciOk(x, y, e.dec))
                 ELSE All2(e.a, e.res.v.d, LAMBDA x, y : FixedOk(x, y, e.dec)))>>,
            <<"number-of-lines", e.nlines = NR(e.a) + (IF e.header THEN 1 ELSE 0)>>,
            <<"header-names-columns", ~e.header \/ e.head = [j \in 1..NC(e.a) |-> "col" \o ToString(j)]>>,
            <<"matrix-unchanged", e.a2 = e.a>>>>)
      [] e.op = "read" -> LET ok == Readable(e.lines, e.header) IN Clauses(<<
            <<"rejected-without-data", ok \/ Raised(e.res)>>,
            <<"table-read", ~ok \/ LET w == ReadTable(e.lines, e.header) IN IsMat(e.res) /\ e.res.v.r = NR(w) /\ e.res.v.c = NC(w) /\ MClose(e.res.v.d, w, F0, F0)>>>>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
