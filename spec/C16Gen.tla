------------------------------- MODULE C16Gen -------------------------------
EXTENDS Enum
Sz == {<<3, 1>>, <<4, 2>>, <<6, 3>>, <<10, 4>>, <<4, 6>>, <<5, 9>>, <<20, 7>>, <<3, 3>>, <<8, 5>>, <<2, 3>>, <<70, 10>>, <<12, 25>>, <<260, 3>>}
SzT == Sz \cup {<<n, p>> : n \in {5, 7, 12, 30}, p \in {1, 2, 5, 8}} \cup {<<10, 20>>}
Kd == {"generic", "offset", "int", "spectra", "dup", "const", "tiny"}
Al == {<<1, 1000>>, <<1, 1>>, <<100, 1>>}
Base == [n |-> 0, al |-> <<1, 1000>>]
C1 == {[op |-> "glsw", cls |-> c, sz |-> s, kind |-> k, al |-> a, n |-> 0, m |-> m, rep |-> r, sc |-> 0]
         : c \in {"GLSW", "YGradientGLSW"}, s \in Pick(Sz, SzT), k \in Kd, a \in Al, m \in {1, 3}, r \in 1..Pick(1, 5)}
C2 == {[op |-> "glsw", cls |-> c, sz |-> s, kind |-> k, al |-> <<1, 1000>>, n |-> n, m |-> 2, rep |-> r, sc |-> 0]
         : c \in {"EPO", "YGradientEPO"}, s \in Pick(Sz, SzT), k \in Kd, n \in {1, 2, 3, 5, 8}, r \in 1..Pick(1, 5)}
\* responses of other orders of magnitude (only their order and relative gradient matter)
C3 == {[op |-> "glsw", cls |-> c, sz |-> s, kind |-> k, al |-> <<1, 1>>, n |-> IF c = "YGradientEPO" THEN 2 ELSE 0, m |-> 2, rep |-> r, sc |-> x]
         : c \in {"YGradientGLSW", "YGradientEPO"}, s \in {<<4, 2>>, <<10, 4>>, <<8, 5>>, <<20, 7>>}, k \in {"generic", "int"}, x \in {-9, -5, 4, 9}, r \in 1..Pick(1, 5)}
Pr == {[op |-> "probe", cls |-> "GLSW", sz |-> <<20, 7>>, kind |-> "generic", al |-> <<100, 1>>, n |-> 0, m |-> 1, rep |-> 1, sc |-> 0]}
C_Cases == SetToSeq({c \in C1 \cup C2 \cup C3 : ~(c.sz[1] < 3 /\ c.cls \in {"YGradientGLSW", "YGradientEPO"})} \cup Pr)
=============================================================================
