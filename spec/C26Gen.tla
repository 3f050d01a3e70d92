------------------------------- MODULE C26Gen -------------------------------
EXTENDS Enum
\* ranges in units of wave-number steps: <<4k+a, ...>>; wave number of point i is 10 + 4i (i from 0), so bounds may fall on points or between them
Rg == {<<>>, <<<<10, 26>>>>, <<<<11, 25>>>>, <<<<10, 22>>, <<26, 46>>>>, <<<<0, 1000>>>>, <<<<14, 30>>, <<22, 42>>>>, <<<<500, 600>>>>, <<<<500, 600>>, <<10, 30>>>>,
       <<<<18, 38>>, <<18, 38>>>>, <<<<30, 46>>, <<10, 18>>>>}
Co == {[op |-> "correct", n |-> n, m |-> m, ranges |-> rg, pre |-> p, kind |-> k, wave |-> w, rep |-> r]
         : n \in {10, 14, 60, 300}, m \in {1, 3, 12, 140}, rg \in Rg, p \in {"none", "smooth", "gain", "shift"}, k \in {"noise", "affine", "mixed", "faint", "strong"}, w \in {"up", "down", "mixed"}, r \in 1..Pick(2, 12)}
Bu == {[op |-> "build", n |-> n, m |-> m, rep |-> r] : n \in {1, 2, 5}, m \in {0, 1, 2, 5}, r \in 1..2}
C_Cases == SetToSeq(Co) \o SetToSeq(Bu)
=============================================================================
