------------------------------- MODULE C14Gen -------------------------------
EXTENDS Enum
Reps == 1..Pick(1, 2)
Pre == {"none", "center", "standardize"}
Kd == {"generic", "offset", "spectra", "int", "micro", "macro", "tiny"}
\* rows, columns, components
Sz == {<<6, 3, 1>>, <<6, 3, 2>>, <<10, 4, 1>>, <<10, 4, 3>>, <<12, 6, 2>>, <<20, 8, 4>>, <<7, 10, 3>>, <<30, 5, 5>>, <<9, 2, 2>>, <<5, 1, 1>>, <<70, 8, 3>>, <<15, 25, 2>>, <<260, 4, 2>>, <<8, 140, 1>>}
SzT == Sz \cup {<<n, p, k>> : n \in {8, 15, 25}, p \in {2, 3, 5, 7}, k \in {1, 2, 4}} \cup {<<50, 6, 3>>, <<12, 20, 4>>}
Ss == {s \in Pick(Sz, SzT) : s[3] <= s[2] /\ s[3] < s[1]}
Low(s) == s[3] < s[2]
Base == [kb |-> 1, base |-> "PLS1", ns |-> 0, nt |-> 0, nu |-> 0, mode |-> "", lam |-> <<0, 1>>, C |-> <<4, 1>>, tole |-> 6, maxIter |-> 500, nc |-> -1, q |-> 1,
         kern |-> "", gamma |-> <<1, 1>>, coef |-> <<0, 1>>, deg |-> 3, normY |-> FALSE]
K(cls, s, k, p, r, f) == f @@ [cls |-> cls, sz |-> s, kind |-> k, pre |-> p, rep |-> r] @@ Base
Op == {K("OPLS", s, k, p, r, [kb |-> kb, base |-> b]) : s \in {s \in Ss : Low(s)}, k \in Kd, p \in Pre, kb \in {1, 2}, b \in {"PLS1", "SIMPLS"}, r \in Reps}
\* source rows, target rows, unlabelled rows
Dom == {<<6, 5, 0>>, <<5, 8, 0>>, <<8, 8, 0>>, <<10, 4, 0>>, <<3, 3, 0>>, <<40, 35, 0>>}
DomS == {<<6, 5, 4>>, <<5, 8, 2>>, <<7, 4, 9>>, <<4, 4, 1>>}
Dcase(d, md) == {K("DIPLS", <<d[1] + d[2] + d[3], pk[1], pk[2]>>, k, p, r, [ns |-> d[1], nt |-> d[2], nu |-> d[3], mode |-> md, lam |-> l])
            : pk \in {<<1, 1>>, <<2, 1>>, <<3, 2>>, <<5, 2>>, <<4, 3>>}, k \in {"generic", "offset", "micro"}, p \in Pre, l \in {<<1, 1>>, <<1, 100>>, <<-1, 2>>, <<10, 1>>}, r \in Reps}
Di == UNION {Dcase(d, md) : d \in Dom, md \in {"unsupervised", "supervised"}} \cup UNION {Dcase(d, "semisupervised") : d \in DomS}
Sp == {K("SparsePLS", s, k, p, r, [lam |-> l]) : s \in Ss, k \in {"generic", "offset", "spectra", "micro", "macro"}, p \in Pre, l \in {<<0, 1>>, <<3, 10>>, <<1, 2>>, <<4, 5>>}, r \in Reps}
Pm == {K("PRM", s, k, p, r, [C |-> c]) : s \in Ss, k \in {"generic", "offset", "spectra", "micro", "macro", "tiny"}, p \in Pre, c \in {<<4, 1>>, <<1, 1>>, <<100, 1>>}, r \in Reps}
      \cup {K("PRM", s, k, "center", r, [C |-> <<2, 1>>, tole |-> 3, maxIter |-> mi]) : s \in Ss, k \in {"generic", "offset"}, mi \in {0, 1, 5}, r \in Reps}
      \cup {K("PRM", s, "generic", "none", r, [nc |-> n]) : s \in {s \in Ss : s[2] <= s[1]}, n \in {1, 2}, r \in Reps}
Vc == {K("VCPLS", s, k, p, r, [lam |-> l]) : s \in {s \in Ss : s[2] < s[1]}, k \in {"generic", "int", "spectra", "micro"}, p \in Pre, l \in {<<1, 1>>, <<0, 1>>, <<1, 10>>, <<50, 1>>}, r \in Reps}
Kerns == {[kern |-> "LinearKernel"], [kern |-> "PolyKernel", deg |-> 2, gamma |-> <<1, 2>>, coef |-> <<1, 1>>], [kern |-> "PolyKernel", deg |-> 3, gamma |-> <<0, 0>>, coef |-> <<1, 2>>],
          [kern |-> "RBFKernel", gamma |-> <<1, 1>>], [kern |-> "RBFKernel", gamma |-> <<1, 10>>]}
Kp == {K("KernelPLS", s, k, p, r, kr @@ [q |-> q]) : s \in {s \in Ss : s[1] <= 12 /\ s[3] <= 3} \cup {<<40, 5, 2>>}, k \in {"generic", "spectra"}, p \in Pre, kr \in Kerns, q \in {1, 2}, r \in Reps}
      \cup {K("KernelPLS", s, "generic", "none", r, kr @@ [q |-> 3, maxIter |-> mi]) : s \in {<<10, 4, 3>>, <<12, 6, 2>>}, kr \in Kerns, mi \in {1, 5}, r \in Reps}
Cc == {K("CCARegression", s, k, p, r, [q |-> q, normY |-> ny, tole |-> te]) : s \in {s \in Ss : s[2] + 2 < s[1] /\ s[3] <= 3}, k \in {"generic", "offset", "micro", "macro"}, p \in Pre, q \in {1, 2, 3}, ny \in BOOLEAN, te \in {6, 10}, r \in Reps}
Pr == {K("OPLS-probe", <<10, 4, 2>>, "generic", "center", 1, Base), K("PRM-probe", <<20, 4, 2>>, "generic", "center", 1, [maxIter |-> 40]), K("KernelPLS-probe", <<10, 4, 2>>, "generic", "none", 1, [kern |-> "RBFKernel"])}
C_Cases == SetToSeq(Op) \o SetToSeq(Di) \o SetToSeq(Sp) \o SetToSeq(Pm) \o SetToSeq(Vc) \o SetToSeq(Kp) \o SetToSeq(Cc) \o SetToSeq(Pr)
=============================================================================
