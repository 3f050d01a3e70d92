-------------------------------- MODULE C11 --------------------------------
\* Trace specification of the matrix object as a value.
EXTENDS MatrixOps, Conform
C_InitSt == 0
C_NextSt(s, e) == s
C_Violated(s, e) ==
    IF e.op # "call" THEN {"unexpected-event"} ELSE
    LET w == Want(e.m, e.a, e.b, e) IN
    Clauses(<<<<"result:" \o e.m, Agrees(e.res, w)>>,
              <<"receiver-afterwards:" \o e.m, MClose(e.a2, After(e.m, e.a, e.b, e), F0, Eps(12))>>,
              <<"operand-unchanged:" \o e.m, MClose(e.b2, e.b, F0, F0)>>>>)
=============================================================================
