-------------------------------- MODULE Pca --------------------------------
(***************************************************************************)
(* Principal components of the non-constant columns.                        *)
(***************************************************************************)
EXTENDS Transform
SeqOfSet(S) == LET RECURSIVE G(_)
                   G(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o G(T \ {m})
               IN G(S)
Varying(X) == SeqOfSet({j \in 1..NC(X) : ~Constant(Col(X, j))})
PcaData(X, center) == LET A == MCols(X, Varying(X)) IN IF center THEN CenterOf(A, A) ELSE StandardizeOf(A, A)
Covariance(T) == MScale(MMul(MT(T), T), FRat(1, NR(T) - 1))
\* k components: just enough for the share of variance, at most max (if positive)
EnoughFor(lam, k, share, mx, tol) ==
    LET p == Len(lam)
        limit == IF mx > 0 /\ mx < p THEN mx ELSE p
        total == FSum(lam)
        part(j) == FDiv(TopSum(lam, j), total)
    IN /\ k >= 1 /\ k <= limit
       /\ k = limit \/ FLe(share, FAdd(part(k), tol))
       /\ k = 1 \/ FLt(part(k - 1), FAdd(share, tol))
=============================================================================
