------------------------------- MODULE SavGol -------------------------------
(***************************************************************************)
(* Savitzky-Golay filters.  The least-squares weights of the coefficient of *)
(* x^d of the fitted polynomial of order p over the positions -l..r are the *)
(* unique vector that (1) reproduces the coefficient of every polynomial up *)
(* to order p and (2) is itself a polynomial of order p in the position.    *)
(***************************************************************************)
EXTENDS Obs
RECURSIVE IPow(_, _)
IPow(x, k) == IF k = 0 THEN F1 ELSE FMul(FInt(x), IPow(x, k - 1))
Reproduces(c, l, p, d, tol) ==
    \A j \in 0..p :
       LET m == Force([k \in 1..Len(c) |-> IPow(k - 1 - l, j)])
           t == FMul(FMul(tol, VMaxAbs(c)), FSum(Force([k \in 1..Len(c) |-> FAbs(m[k])])))
       IN FClose(FDot(c, m), IF j = d THEN F1 ELSE F0, FAdd(t, tol), F0)
Diff(c) == Force([k \in 1..(Len(c) - 1) |-> FSub(c[k + 1], c[k])])
RECURSIVE Diffs(_, _)
Diffs(c, n) == IF n = 0 \/ Len(c) <= 1 THEN c ELSE Diffs(Diff(c), n - 1)
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
PolynomialIn(c, p, tol) == Len(c) <= p + 1 \/
    FLe(VMaxAbs(Diffs(c, p + 1)), FMul(FMul(tol, VMaxAbs(c)), FInt(Two(p + 1))))
\* ... and so is every part of the weights with equal gaps, where differences do not vanish for wide windows
Every(c, o, s) == Force([k \in 1..(((Len(c) - o) \div s) + 1) |-> c[o + ((k - 1) * s)]])
WidelyPolynomial(c, p, tol) == LET s == (Len(c) - 1) \div (p + 1) IN s <= 1 \/ \A o \in 1..s : PolynomialIn(Every(c, o, s), p, tol)
\* every full window of every row
Slide(X, c) == LET w == Len(c) IN
    Force([i \in 1..NR(X) |-> [j \in 1..(NC(X) - w + 1) |-> FDot(SubSeq(X[i], j, j + w - 1), c)]])
\* five-point gradient down the columns, end rows repeated
Clamp(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
Gradient5(X) == LET n == NR(X) IN
    MBuild(n, NC(X), LAMBDA i, j :
        FDiv(FSub(FAdd(FMul(F2, X[Clamp(i - 2, n)][j]), X[Clamp(i - 1, n)][j]),
                  FAdd(X[Clamp(i + 1, n)][j], FMul(F2, X[Clamp(i + 2, n)][j]))), FInt(10)))
=============================================================================
