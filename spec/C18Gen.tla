------------------------------- MODULE C18Gen -------------------------------
EXTENDS Enum
\* observations, features
Sz == {<<30, 3>>, <<50, 2>>, <<20, 5>>, <<12, 4>>, <<8, 6>>, <<100, 4>>, <<10, 1>>, <<5, 8>>, <<160, 10>>, <<600, 2>>}
SzT == Sz \cup {<<n, p>> : n \in {15, 40, 80}, p \in {2, 3, 5, 7}} \cup {<<300, 3>>}
\* tiny, huge: the sources in other units
Kd == {"sources", "generic", "offset", "white", "tiny", "huge", "micro12"}
Funs == {[fun |-> "LogCosH", al |-> <<1, 1>>], [fun |-> "LogCosH", al |-> <<3, 2>>], [fun |-> "Cube", al |-> <<1, 1>>], [fun |-> "Exponential", al |-> <<1, 1>>]}
C1 == {f @@ [op |-> "ica", sz |-> s, kind |-> k, k |-> n, whiten |-> w, alg |-> a, maxIter |-> mi, tole |-> 4, rep |-> r]
        : f \in Funs, s \in Pick(Sz, SzT), k \in Kd, n \in {1, 2, 3, 9}, w \in BOOLEAN, a \in {"deflation", "parallel"}, mi \in {1, 3, 60}, r \in 1..Pick(1, 3)}
Use(c) == (IF c.whiten THEN c.kind # "white" ELSE c.k = 1 /\ c.sz[2] < c.sz[1] /\ c.kind \in {"white", "generic"}) /\ ~(c.maxIter = 60 /\ c.sz[1] > 60 /\ ~Thorough)
C2 == {f @@ [op |-> "fun", sz |-> s, kind |-> k, k |-> 1, whiten |-> TRUE, alg |-> "", maxIter |-> 1, tole |-> 4, rep |-> r] : f \in Funs, s \in {<<1, 1>>, <<1, 6>>, <<5, 1>>, <<3, 4>>}, k \in {"generic", "int", "zero", "offset"}, r \in 1..3}
C3 == {[op |-> "untrained", fun |-> "Cube", al |-> <<1, 1>>, sz |-> <<1, 1>>, kind |-> "generic", k |-> 1, whiten |-> TRUE, alg |-> "", maxIter |-> 1, tole |-> 4, rep |-> 1]}
C_Cases == SetToSeq({c \in C1 : Use(c)} \cup C2 \cup C3)
=============================================================================
