------------------------------- MODULE C19Gen -------------------------------
EXTENDS Enum
LargeSz == {<<3, 140, 2>>, <<140, 4, 3>>, <<2, 300, 1>>, <<300, 2, 2>>, <<3, 2, 300>>}
\* sizes: rows of X, rows of Y, columns
Sz == {<<1, 1, 1>>, <<1, 3, 2>>, <<3, 1, 4>>, <<4, 4, 3>>, <<5, 2, 1>>, <<2, 7, 6>>, <<9, 8, 3>>, <<2, 2, 3>>, <<3, 3, 1>>, <<5, 5, 4>>} \cup LargeSz \cup {<<20, 15, 10>>, <<3, 3, 40>>, <<60, 2, 2>>, <<25, 25, 3>>}
Kd == {"generic", "int", "zero", "dup", "offset", "pos", "tiny", "micro12", "specks"}
None == <<0, 0>>
Lin == {[op |-> "kernel", cls |-> "LinearKernel", gamma |-> None, coef |-> <<0, 1>>, deg |-> 1, sz |-> s, kind |-> k, rep |-> r] : s \in Sz, k \in Kd, r \in 1..Pick(1, 5)}
Poly == {[op |-> "kernel", cls |-> "PolyKernel", gamma |-> g, coef |-> c, deg |-> d, sz |-> s, kind |-> k, rep |-> r]
           : g \in {None, <<1, 2>>, <<2, 1>>, <<-1, 4>>, <<0, 1>>}, c \in {<<0, 1>>, <<1, 1>>, <<-3, 2>>}, d \in {1, 2, 3, 5}, s \in Sz, k \in {"generic", "int", "offset"}, r \in 1..Pick(1, 3)}
Rbf == {[op |-> "kernel", cls |-> "RBFKernel", gamma |-> g, coef |-> <<0, 1>>, deg |-> 1, sz |-> s, kind |-> k, rep |-> r]
           : g \in {None, <<1, 1>>, <<1, 10>>, <<3, 1>>, <<0, 1>>}, s \in Sz, k \in Kd, r \in 1..Pick(1, 5)}
Pr == {[op |-> "probe", cls |-> "RBFKernel", gamma |-> <<1, 1>>, coef |-> <<0, 1>>, deg |-> 1, sz |-> <<4, 4, 3>>, kind |-> "generic", rep |-> 1]}
C_Cases == SetToSeq({c \in Lin \cup Poly \cup Rbf \cup Pr : c.sz \in LargeSz => c.rep = 1 /\ c.kind \in {"generic", "dup"} /\ (c.cls = "PolyKernel" => c.deg < 3 /\ c.coef # <<1, 1>>)})
=============================================================================
