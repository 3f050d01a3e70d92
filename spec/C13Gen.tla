------------------------------- MODULE C13Gen -------------------------------
EXTENDS Enum
\* rows, columns, components
Sz == {<<3, 1, 1>>, <<4, 2, 1>>, <<4, 2, 2>>, <<6, 3, 1>>, <<6, 3, 2>>, <<6, 3, 3>>, <<10, 5, 2>>, <<10, 5, 4>>, <<10, 5, 5>>, <<20, 8, 5>>, <<8, 12, 3>>, <<8, 12, 5>>, <<40, 4, 3>>, <<5, 4, 3>>, <<110, 6, 4>>, <<12, 40, 3>>, <<60, 15, 8>>, <<300, 4, 2>>}
SzT == Sz \cup {<<n, p, k>> : n \in {7, 12, 25}, p \in {2, 3, 6, 9}, k \in {1, 2, 4}} \cup {<<60, 10, 6>>, <<15, 30, 4>>}
Fit(s) == s[3] <= s[2] /\ s[3] < s[1]
Ss == {s \in Pick(Sz, SzT) : Fit(s)}
Kd == {"generic", "offset", "const0", "int", "dup", "spectra", "micro", "macro", "tiny", "micro12"}
Pre == {"none", "center", "standardize"}
Reps == 1..Pick(1, 3)
S1 == {[cls |-> c, sz |-> s, kind |-> k, pre |-> p, q |-> 1, nc |-> 0, canon |-> FALSE, normY |-> FALSE, maxIter |-> 500, tole |-> 6, rep |-> r]
         : c \in {"SIMPLS", "PLS1", "NIPALS"}, s \in Ss, k \in Kd, p \in Pre, r \in Reps}
Sl == {[cls |-> "SIMPLS", sz |-> s, kind |-> k, pre |-> p, q |-> 1, nc |-> n, canon |-> FALSE, normY |-> FALSE, maxIter |-> 500, tole |-> 6, rep |-> r]
         : s \in Ss, k \in {"generic", "int"}, p \in {"none", "center"}, n \in {-1, 1, 2, 3, 20}, r \in Reps}
Nm == {[cls |-> "NIPALS", sz |-> s, kind |-> k, pre |-> p, q |-> q, nc |-> 0, canon |-> ca, normY |-> ny, maxIter |-> mi, tole |-> te, rep |-> r]
         : s \in Ss, k \in {"generic", "offset", "const0", "allconst"}, p \in {"none", "standardize"}, q \in {1, 2, 4}, ca \in BOOLEAN, ny \in BOOLEAN, mi \in {500}, te \in {6, 10}, r \in Reps}
      \cup {[cls |-> "NIPALS", sz |-> s, kind |-> k, pre |-> "center", q |-> q, nc |-> 0, canon |-> ca, normY |-> FALSE, maxIter |-> mi, tole |-> 12, rep |-> r]
         : s \in {<<6, 3, 2>>, <<10, 5, 4>>}, k \in {"generic", "offset"}, q \in {2, 3}, ca \in BOOLEAN, mi \in {0, 1, 3}, r \in Reps}
Pr == {[cls |-> "probe", sz |-> <<10, 5, 2>>, kind |-> "generic", pre |-> "none", q |-> 1, nc |-> 2, canon |-> FALSE, normY |-> FALSE, maxIter |-> 500, tole |-> 6, rep |-> 1]}
Usable(c) == ~(c.kind = "const0" /\ c.sz[2] = 1 /\ c.cls # "NIPALS")
C_Cases == SetToSeq({c \in S1 \cup Sl \cup Nm \cup Pr : Usable(c)})
=============================================================================
