-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Linear algebra over Float64: matrices are sequences of rows (at least    *)
(* one row and one column).  Everything the specifications need to restate  *)
(* the equations of the algorithms: statistics, linear solve (Gauss with    *)
(* partial pivoting), symmetric eigenvalues (cyclic Jacobi), semidefinite-  *)
(* ness, and comparison up to sign.                                         *)
(***************************************************************************)
EXTENDS Float64, FiniteSets, TLC

NR(A) == Len(A)
NC(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
SameShape(A, B) == NR(A) = NR(B) /\ NC(A) = NC(B)

MBuild(n, m, F(_, _)) == Force([i \in 1..n |-> [j \in 1..m |-> F(i, j)]])
MMap(A, F(_))  == Force([i \in 1..NR(A) |-> [j \in 1..NC(A) |-> F(A[i][j])]])
MId(n)         == Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN F1 ELSE F0]])
MZero(n, m)    == Force([i \in 1..n |-> [j \in 1..m |-> F0]])
MFill(n, m, x) == Force([i \in 1..n |-> [j \in 1..m |-> x]])
MDiag(v)       == LET n == Len(v) IN Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN v[i] ELSE F0]])
ColVec(v)      == Force([i \in 1..Len(v) |-> <<v[i]>>])
Col(A, j)      == Force([i \in 1..NR(A) |-> A[i][j]])
MCol(A, j)     == Force([i \in 1..NR(A) |-> <<A[i][j]>>])
MCols(A, js)   == Force([i \in 1..NR(A) |-> [k \in 1..Len(js) |-> A[i][js[k]]]])
MRows(A, is)   == Force([k \in 1..Len(is) |-> A[is[k]]])
Upto(n)        == [k \in 1..n |-> k]
From(a, b)     == [k \in 1..(b - a + 1) |-> a + k - 1]       \* <<a, ..., b>>
MHCat(A, B)    == Force([i \in 1..NR(A) |-> A[i] \o B[i]])
MVCat(A, B)    == A \o B
Flat(A)        == LET RECURSIVE G(_)
                      G(i) == IF i > NR(A) THEN <<>> ELSE A[i] \o G(i + 1)
                  IN Force(G(1))
AllFinite(A)   == \A i \in 1..NR(A) : \A j \in 1..NC(A) : FIsFinite(A[i][j])
MTrace(A)      == FSum(Force([i \in 1..NR(A) |-> A[i][i]]))
Norm2Sq(v)     == FDot(v, v)
Norm2(v)       == FSqrt(FDot(v, v))
MFrobSq(A)     == FSum(Force([i \in 1..NR(A) |-> FDot(A[i], A[i])]))
Outer(u, v)    == Force([i \in 1..Len(u) |-> [j \in 1..Len(v) |-> FMul(u[i], v[j])]])
VScale(v, s)   == Force([k \in 1..Len(v) |-> FMul(v[k], s)])
VSub(u, v)     == Force([k \in 1..Len(v) |-> FSub(u[k], v[k])])
VAdd(u, v)     == Force([k \in 1..Len(v) |-> FAdd(u[k], v[k])])
VNeg(v)        == Force([k \in 1..Len(v) |-> FNeg(v[k])])
VUnit(v)       == LET n == Norm2(v) IN Force([k \in 1..Len(v) |-> FDiv(v[k], n)])
MVec(A, v)     == Force([i \in 1..NR(A) |-> FDot(A[i], v)])
TVec(A, v)     == MVec(MT(A), v)

(***************************************************************************)
(* Statistics                                                               *)
(***************************************************************************)
VMean(v)    == FDiv(FSum(v), FInt(Len(v)))
VVar(v)     == LET m == VMean(v) IN FDiv(FSum(Force([k \in 1..Len(v) |-> FSqr(FSub(v[k], m))])), FInt(Len(v) - 1))
VStd(v)     == FSqrt(VVar(v))
ColMeans(A) == LET B == MT(A) IN Force([j \in 1..NC(A) |-> VMean(B[j])])
ColStds(A)  == LET B == MT(A) IN Force([j \in 1..NC(A) |-> VStd(B[j])])
RowMeans(A) == Force([i \in 1..NR(A) |-> VMean(A[i])])
RowStds(A)  == Force([i \in 1..NR(A) |-> VStd(A[i])])
Spread(v)   == VMaxAbs(VSub(v, Force([k \in 1..Len(v) |-> v[1]])))     \* 0 iff constant
SubRowVec(A, v) == Force([i \in 1..NR(A) |-> [j \in 1..NC(A) |-> FSub(A[i][j], v[j])]])
AddRowVec(A, v) == Force([i \in 1..NR(A) |-> [j \in 1..NC(A) |-> FAdd(A[i][j], v[j])]])
MulRowVec(A, v) == Force([i \in 1..NR(A) |-> [j \in 1..NC(A) |-> FMul(A[i][j], v[j])]])
DivRowVec(A, v) == Force([i \in 1..NR(A) |-> [j \in 1..NC(A) |-> FDiv(A[i][j], v[j])]])
Centered(A)     == SubRowVec(A, ColMeans(A))

VSortAsc(v) == SortSeq(v, LAMBDA x, y : FLt(x, y))
VMedian(v)  == LET s == Force(VSortAsc(v))  n == Len(v) IN
               IF n % 2 = 1 THEN s[(n + 1) \div 2]
               ELSE FDiv(FAdd(s[n \div 2], s[n \div 2 + 1]), F2)
VMaxOf(v)   == LET s == Force(VSortAsc(v)) IN s[Len(s)]
VMinOf(v)   == LET s == Force(VSortAsc(v)) IN s[1]

(***************************************************************************)
(* Comparison                                                               *)
(***************************************************************************)
\* equal within rel * (1 + the largest magnitude involved)
MNear(A, B, rel) == LET t == FMul(rel, FAdd(F1, FMax(MMagn(A), MMagn(B)))) IN MClose(A, B, t, F0)
\* the same without the additive unit: scale invariant
MNearRel(A, B, rel) == MClose(A, B, FMul(rel, FMax(MMagn(A), MMagn(B))), F0)
VNear(u, v, rel) == MNear(<<u>>, <<v>>, rel)
VNearRel(u, v, rel) == MNearRel(<<u>>, <<v>>, rel)
FNear(x, y, rel) == FClose(x, y, rel, rel)
VNearSign(u, v, rel) == VNear(u, v, rel) \/ VNear(u, VNeg(v), rel)
Parallel(u, v, rel) ==   \* same line: Cauchy-Schwarz with equality
    FLe(FSub(FMul(Norm2Sq(u), Norm2Sq(v)), FSqr(FDot(u, v))), FMul(rel, FMul(Norm2Sq(u), Norm2Sq(v))))

(***************************************************************************)
(* Linear solve A X = B: Gauss-Jordan with partial pivoting.                *)
(***************************************************************************)
MSolveDef(A, B) ==
    LET n == NR(A)
        Aug == MHCat(A, B)
        w == NC(Aug)
        RECURSIVE Pivot(_, _, _)
        Pivot(M, c, best) ==   \* index of the largest entry of column c at or below row c
            LET RECURSIVE G(_, _)
                G(i, b) == IF i > n THEN b ELSE G(i + 1, IF FLt(FAbs(M[b][c]), FAbs(M[i][c])) THEN i ELSE b)
            IN G(c, best)
        RECURSIVE Elim(_, _)
        Elim(M, c) ==
            IF c > n THEN M ELSE
            LET p == Pivot(M, c, c)
                S == Force([i \in 1..n |-> IF i = c THEN M[p] ELSE IF i = p THEN M[c] ELSE M[i]])
                d == S[c][c]
                N == Force([i \in 1..n |-> IF i = c THEN VScale(S[c], FDiv(F1, d))
                                           ELSE LET f == FDiv(S[i][c], d) IN
                                                [j \in 1..w |-> FSub(S[i][j], FMul(f, S[c][j]))]])
            IN Elim(N, c + 1)
    IN MCols(Elim(Aug, 1), From(n + 1, w))

MSolve(A, B) == MSolveDef(A, B)       \* evaluated by java/Mat.java: the same operations in the same order (NumModel compares)

MInv(A) == MSolve(A, MId(NR(A)))

(***************************************************************************)
(* Symmetric eigenproblem: cyclic Jacobi, 'sweeps' sweeps.                  *)
(* Result: [d |-> eigenvalues, v |-> eigenvectors as columns], unsorted.    *)
(***************************************************************************)
JacobiRot(A, V, p, q) ==
    LET n == NR(A)
        apq == A[p][q]
    IN IF FEq(apq, F0) THEN [a |-> A, v |-> V] ELSE
       LET th == FDiv(FSub(A[q][q], A[p][p]), FMul(F2, apq))
           t  == LET s == FDiv(F1, FAdd(FAbs(th), FSqrt(FAdd(FSqr(th), F1)))) IN IF FLt(th, F0) THEN FNeg(s) ELSE s
           c  == FDiv(F1, FSqrt(FAdd(FSqr(t), F1)))
           s  == FMul(t, c)
           \* columns p and q
           Rc(M) == Force([i \in 1..Len(M) |-> [M[i] EXCEPT ![p] = FSub(FMul(c, M[i][p]), FMul(s, M[i][q])),
                                                         ![q] = FAdd(FMul(s, M[i][p]), FMul(c, M[i][q]))]])
           B  == Rc(A)
           B2 == Force([B EXCEPT ![p] = [j \in 1..n |-> FSub(FMul(c, B[p][j]), FMul(s, B[q][j]))],
                                 ![q] = [j \in 1..n |-> FAdd(FMul(s, B[p][j]), FMul(c, B[q][j]))]])
       IN [a |-> B2, v |-> Rc(V)]

SymEigDef(A) ==
    LET n == NR(A)
        tiny == FMul(FTen(-15), MMaxAbs(A))
        OffMax(M) == VMaxAbs(Flat(Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN F0 ELSE M[i][j]]])))
        RECURSIVE Go(_, _, _, _)
        Go(S, p, q, sweep) ==
            IF p >= n THEN
                 IF sweep >= 12 \/ FLe(OffMax(S.a), tiny) THEN S ELSE Go(S, 1, 2, sweep + 1)
            ELSE LET T == Force(JacobiRot(S.a, S.v, p, q)) IN
                 IF q < n THEN Go(T, p, q + 1, sweep) ELSE Go(T, p + 1, p + 2, sweep)
        R == Go([a |-> A, v |-> MId(n)], 1, 2, 1)
    IN [d |-> Force([i \in 1..n |-> R.a[i][i]]), v |-> R.v]

SymEig(A) == SymEigDef(A)             \* evaluated by java/Mat.java, likewise

VSortDesc(v) == LET s == Force(VSortAsc(v)) IN Force([k \in 1..Len(s) |-> s[Len(s) + 1 - k]])
SymEigVals(A) == VSortDesc(SymEig(A).d)          \* descending
TopSum(v, k)  == FSum(SubSeq(v, 1, k))
\* f(A) for symmetric A, f applied to the eigenvalues
SymFun(A, F(_)) == LET e == SymEig(A) IN MMul(MMul(e.v, MDiag(Force([i \in 1..Len(e.d) |-> F(e.d[i])]))), MT(e.v))

MSymmetric(A, rel) == MNearRel(A, MT(A), rel)
OrthoCols(A, rel)  == MNear(MMul(MT(A), A), MId(NC(A)), rel)
=============================================================================
