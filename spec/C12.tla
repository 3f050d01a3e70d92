-------------------------------- MODULE C12 --------------------------------
\* Trace specification of one matrix object with cached decompositions.  State: its contents.
EXTENDS MatrixOps, Decomp, Conform
C_InitSt == <<>>
C_NextSt(s, e) ==
    CASE e.op = "new" -> e.a
      [] e.op = "update" -> IF e.m = "any" THEN e.a2 ELSE After(e.m, s, e.b, e)
      [] OTHER -> s

Sq(A) == NR(A) = NC(A)
QueryOk(A, e) ==
    LET r == e.res  re == r.re  im == r.im
        tol == Eps(9)
        t == FMul(Eps(8), ScaleOf(A))
        vals == Cplx(Col(re, 1), Col(im, 1))
    IN CASE e.m \in {"evals", "evals_desc", "evals_asc", "evecs", "evecs_desc", "evecs_asc", "evecs_dom", "V", "D", "dominant"} /\ ~Sq(A) -> ~r.ok
         [] ~r.ok -> FALSE
         [] e.m = "evals" -> NC(re) = 1 /\ SpectrumOf(A, vals, tol)
         [] e.m = "evals_desc" -> NC(re) = 1 /\ SpectrumOf(A, vals, tol) /\ Desc(Col(re, 1), t)
         [] e.m = "evals_asc" -> NC(re) = 1 /\ SpectrumOf(A, vals, tol) /\ Asc(Col(re, 1), t)
         [] e.m \in {"evecs", "V"} -> EigVectors(A, re, im, tol)
         [] e.m \in {"evecs_desc", "evecs_dom"} -> EigVectors(A, re, im, tol) /\ Desc(RayRe(A, re, im), t)
         [] e.m = "evecs_asc" -> EigVectors(A, re, im, tol) /\ Asc(RayRe(A, re, im), t)
         [] e.m = "dominant" -> NC(re) = 1 /\ EigVector(A, Col(re, 1), Col(im, 1), tol)
         [] e.m = "D" -> /\ NR(re) = NR(A) /\ NC(re) = NR(A)
                         /\ MClose(re, MDiag([i \in 1..NR(re) |-> re[i][i]]), F0, F0)
                         /\ SpectrumOf(A, Cplx([i \in 1..NR(re) |-> re[i][i]], [i \in 1..NR(re) |-> im[i][i]]), tol)
         [] e.m = "svals" -> NC(re) = 1 /\ SingularVals(A, Col(re, 1), tol)
         [] e.m = "S" -> /\ NR(re) = NC(re) /\ MClose(re, MDiag([i \in 1..NR(re) |-> re[i][i]]), F0, F0)
                         /\ SingularVals(A, [i \in 1..NR(re) |-> re[i][i]], tol)
         [] e.m = "U" -> LeftFactor(A, re, tol)
         [] e.m = "W" -> RightFactor(A, re, tol)
C_Violated(s, e) ==
    CASE e.op = "new" -> {}
      [] e.op = "update" -> Clauses(<<<<"update-effect", e.m = "any" \/ MClose(e.a2, After(e.m, s, e.b, e), F0, Eps(12))>>>>)
      [] e.op = "query" -> Clauses(<<<<"belongs-to-current-contents:" \o e.m, QueryOk(s, e)>>, <<"contents-untouched", e.a2 = s>>>>)
      [] e.op = "scribble" -> Clauses(<<<<"contents-untouched", e.a2 = s>>>>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
