----------------------------- MODULE MatrixOps -----------------------------
(***************************************************************************)
(* The matrix object as a value: for every operation the result it must     *)
(* return and the contents the object must have afterwards.                 *)
(*                                                                          *)
(* Want(op, A, B, e) is the specified outcome: a record                     *)
(*   [k |-> "err"]                   the call is refused with an error       *)
(*   [k |-> "mat", m, r, c, tol]     a new matrix                            *)
(*   [k |-> "num", x, tol]           a number                                *)
(*   [k |-> "bool"/"int"/"str"/"ints"/"pairs"/"nums", x]                     *)
(*   [k |-> "none"]                  nothing is returned                     *)
(* tol = 0 means exact, otherwise k of a relative tolerance 10^-k.           *)
(***************************************************************************)
EXTENDS Obs

Err       == [k |-> "err"]
Whatever     == [k |-> "any"]
None      == [k |-> "none"]
Mex(m)    == [k |-> "mat", m |-> m, r |-> NR(m), c |-> NC(m), tol |-> 0]
Mrc(m, r, c) == [k |-> "mat", m |-> m, r |-> r, c |-> c, tol |-> 0]
Map12(m)  == [k |-> "mat", m |-> m, r |-> NR(m), c |-> NC(m), tol |-> 12]
Map11(m)  == [k |-> "mat", m |-> m, r |-> NR(m), c |-> NC(m), tol |-> 11]
Nex(x)    == [k |-> "num", x |-> x, tol |-> 0]
Nap(x)    == [k |-> "num", x |-> x, tol |-> 11]
Bool(b)   == [k |-> "bool", x |-> b]
IntR(i)   == [k |-> "int", x |-> i]

RowV(A) == NR(A) = 1
ColV(A) == NC(A) = 1
Vec(A)  == RowV(A) \/ ColV(A)
VecEls(A) == IF RowV(A) THEN A[1] ELSE Col(A, 1)
Idx0(s) == [k \in 1..Len(s) |-> s[k] + 1]                 \* 0-based indices -> 1-based
Pos(A, P(_)) == LET RECURSIVE G(_, _)
                    G(i, j) == IF i > NR(A) THEN <<>>
                               ELSE IF j > NC(A) THEN G(i + 1, 1)
                               ELSE (IF P(A[i][j]) THEN << <<i - 1, j - 1>> >> ELSE <<>>) \o G(i, j + 1)
                IN G(1, 1)
Zip(A, B, F(_, _)) == MBuild(NR(A), NC(A), LAMBDA i, j : F(A[i][j], B[i][j]))
\* a vector fits as a row (one entry per column) or as a column (one entry per row)
FitsRow(A, V) == RowV(V) /\ NC(V) = NC(A)
FitsCol(A, V) == ColV(V) /\ NR(V) = NR(A)
Broadcast(A, V, F(_, _)) ==
    IF FitsRow(A, V) THEN MBuild(NR(A), NC(A), LAMBDA i, j : F(A[i][j], V[1][j]))
    ELSE MBuild(NR(A), NC(A), LAMBDA i, j : F(A[i][j], V[i][1]))
Fits(A, V) == FitsRow(A, V) \/ FitsCol(A, V)
SumAll(A)  == FSum(Flat(A))
AbsSum(A)  == FSum(Flat(MMap(A, FAbs)))
Abs1(A)    == MMap(A, LAMBDA x : IF FLt(x, F0) THEN FNeg(x) ELSE x)
Sgn(x)     == IF FLt(x, F0) THEN FInt(-1) ELSE IF FLt(F0, x) THEN F1 ELSE F0
ClipTo(A, lo, hi) == MMap(A, LAMBDA x : IF FLt(x, lo) THEN lo ELSE IF FLt(hi, x) THEN hi ELSE x)
Norm2Of(A) == LET f == FSqrt(MFrobSq(A)) IN
              IF Vec(A) THEN f ELSE FDiv(f, FSqrt(FInt(IF NR(A) < NC(A) THEN NR(A) ELSE NC(A))))
Diagonal(A) == LET n == IF NR(A) < NC(A) THEN NR(A) ELSE NC(A) IN Force([i \in 1..n |-> <<A[i][i]>>])
ColNorms(A) == LET B == MT(A) IN Force([j \in 1..NC(A) |-> Norm2(B[j])])
RowNorms(A) == Force([i \in 1..NR(A) |-> Norm2(A[i])])
Without(n, s) == SelectSeq(Upto(n), LAMBDA j : \A k \in 1..Len(s) : s[k] + 1 # j)
\* indices of a (start, stop[, step]) range or of a list
RangeIdx(sp) == IF sp.k = "list" THEN sp.l
                ELSE LET a == sp.l[1]  b == sp.l[2]  st == IF Len(sp.l) = 3 THEN sp.l[3] ELSE 1
                     IN IF b <= a THEN <<>> ELSE [k \in 1..(((b - a - 1) \div st) + 1) |-> a + (k - 1) * st]
InRange(s, n) == \A k \in 1..Len(s) : s[k] >= 0 /\ s[k] < n
SubM(A, ri, ci) == [i \in 1..Len(ri) |-> [j \in 1..Len(ci) |-> A[ri[i] + 1][ci[j] + 1]]]

\* Result of a query: A, B operands; e carries scalars s, t (numbers), i, j (indices), rows, cols (index specifications)
Want(op, A, B, e) ==
    CASE op \in {"transpose", "t"} -> Mex(MT(A))
      [] op \in {"copy", "raw2d", "str"} -> Mex(A)
      [] op = "raw1d" -> [k |-> "nums", x |-> Flat(MT(A))]
      [] op = "sqrt" -> Map12(MMap(A, FSqrt))
      [] op = "exp" -> Map12(MMap(A, FExp))
      [] op = "tanh" -> Map12(MMap(A, FTanh))
      [] op = "abs" -> Mex(Abs1(A))
      [] op = "sign" -> Mex(MMap(A, Sgn))
      [] op = "apply" -> Map12(MMap(A, LAMBDA x : FAdd(FMul(x, x), F1)))
      [] op = "sum_all" -> Nap(SumAll(A))
      [] op = "sum_m1" -> Map11(<<<<SumAll(A)>>>>)
      [] op = "sum_0" -> Map11(<<[j \in 1..NC(A) |-> FSum(Col(A, j))]>>)
      [] op = "sum_1" -> Map11([i \in 1..NR(A) |-> <<FSum(A[i])>>])
      [] op \in {"sum_2", "mean_2"} -> Err
      [] op = "mean_all" -> Nap(FDiv(SumAll(A), FInt(NR(A) * NC(A))))
      [] op = "mean_m1" -> Map11(<<<<FDiv(SumAll(A), FInt(NR(A) * NC(A)))>>>>)
      [] op \in {"mean_0", "h_column_means"} -> Map11(<<ColMeans(A)>>)
      [] op \in {"mean_1", "h_row_means"} -> Map11(ColVec(RowMeans(A)))
      [] op = "h_column_stdevs" -> Map11(<<ColStds(A)>>)
      [] op = "h_row_stdevs" -> Map11(ColVec(RowStds(A)))
      [] op = "norm1" -> Nap(AbsSum(A))
      [] op = "norm2" -> Nap(Norm2Of(A))
      [] op = "norm2sq" -> Nap(FSqr(Norm2Of(A)))
      [] op = "normalized_0" -> Map12(DivRowVec(A, ColNorms(A)))
      [] op = "normalized_1" -> Map12(MBuild(NR(A), NC(A), LAMBDA i, j : FDiv(A[i][j], RowNorms(A)[i])))
      [] op = "max" -> Nex(VMaxOf(Flat(A)))
      [] op = "median" -> Nap(VMedian(Flat(A)))
      [] op = "diag" -> Mex(Diagonal(A))
      [] op = "trace" -> Nap(FSum(Col(Diagonal(A), 1)))
      [] op = "head" -> Mex(IF e.i < NR(A) THEN SubSeq(A, 1, e.i) ELSE A)
      [] op = "head_default" -> Mex(IF 5 < NR(A) THEN SubSeq(A, 1, 5) ELSE A)
      [] op = "is_vector" -> Bool(Vec(A))
      [] op = "is_row_vector" -> Bool(RowV(A))
      [] op = "is_column_vector" -> Bool(ColV(A))
      [] op = "is_square" -> Bool(NR(A) = NC(A))
      [] op = "num_rows" -> IntR(NR(A))
      [] op = "num_columns" -> IntR(NC(A))
      [] op = "num_elements" -> IntR(NR(A) * NC(A))
      [] op = "shape_string" -> [k |-> "str", x |-> "[" \o ToString(NR(A)) \o " x " \o ToString(NC(A)) \o "]"]
      [] op = "h_dim" -> [k |-> "str", x |-> ToString(NR(A)) \o " x " \o ToString(NC(A))]
      [] op = "contains_NaN" -> Bool(\E i \in 1..NR(A) : \E j \in 1..NC(A) : FIsNaN(A[i][j]))
      [] op = "as_real" -> IF NR(A) = 1 /\ NC(A) = 1 THEN Nex(A[1][1]) ELSE Err
      [] op = "vector_to_diagonal" -> IF Vec(A) THEN Mex(MDiag(VecEls(A))) ELSE Err
      [] op = "get_from_vector" -> IF ~Vec(A) THEN Err ELSE IF e.i < Len(VecEls(A)) THEN Nex(VecEls(A)[e.i + 1]) ELSE Err
      [] op = "where_vector" -> IF ~Vec(A) THEN Err
                                ELSE LET v == VecEls(A) IN [k |-> "ints", x |-> SelectSeq([q \in 1..Len(v) |-> q - 1], LAMBDA q : FLt(e.s, v[q + 1]))]
      [] op = "which" -> [k |-> "pairs", x |-> Pos(A, LAMBDA x : FLt(e.s, x))]
      [] op = "any" -> Bool(\E i \in 1..NR(A) : \E j \in 1..NC(A) : FLt(e.s, A[i][j]))
      [] op = "all" -> Bool(\A i \in 1..NR(A) : \A j \in 1..NC(A) : FLt(e.s, A[i][j]))
      [] op = "mul_s" -> Map12(MScale(A, e.s))
      [] op = "div_s" -> Map12(MMap(A, LAMBDA x : FDiv(x, e.s)))
      [] op = "add_s" -> Map12(MMap(A, LAMBDA x : FAdd(x, e.s)))
      [] op = "sub_s" -> Map12(MMap(A, LAMBDA x : FSub(x, e.s)))
      [] op = "pow_s" -> Map12(MMap(A, LAMBDA x : IF FEq(e.s, F2) THEN FMul(x, x) ELSE IF FEq(e.s, FInt(3)) THEN FMul(x, FMul(x, x)) ELSE FPow(x, e.s)))
      [] op = "clip" -> IF FLt(e.t, e.s) THEN Err ELSE Mex(ClipTo(A, e.s, e.t))
      [] op = "clip_lower" -> Mex(MMap(A, LAMBDA x : IF FLt(x, e.s) THEN e.s ELSE x))
      [] op = "clip_upper" -> Mex(MMap(A, LAMBDA x : IF FLt(e.s, x) THEN e.s ELSE x))
      [] op = "get" -> IF e.i < NR(A) /\ e.j < NC(A) THEN Nex(A[e.i + 1][e.j + 1]) ELSE Err
      [] op \in {"get_row", "h_row_as_vector"} -> IF e.i < NR(A) THEN Mex(<<A[e.i + 1]>>) ELSE Err
      [] op \in {"get_column", "h_column_as_vector"} -> IF e.i < NC(A) THEN Mex(MCol(A, e.i + 1)) ELSE Err
      [] op = "h_mean_col" -> Nap(ColMeans(A)[e.i + 1])
      [] op = "h_mean_row" -> Nap(RowMeans(A)[e.i + 1])
      [] op = "h_stdev_col" -> Nap(ColStds(A)[e.i + 1])
      [] op = "h_stdev_row" -> Nap(RowStds(A)[e.i + 1])
      [] op = "h_delete_col" -> LET c == Without(NC(A), <<e.i>>) IN Mrc(MCols(A, c), NR(A), Len(c))
      [] op = "get_sub_matrix" -> LET ri == RangeIdx(e.rows)  ci == RangeIdx(e.cols) IN
                                  IF InRange(ri, NR(A)) /\ InRange(ci, NC(A)) THEN Mrc(SubM(A, ri, ci), Len(ri), Len(ci))
                                  ELSE IF ri = <<>> \/ ci = <<>> THEN Whatever ELSE Err       \* nothing is selected: no claim
      [] op = "get_rows" -> LET ri == RangeIdx(e.rows) IN
                            IF InRange(ri, NR(A)) THEN Mrc(SubM(A, ri, [q \in 1..NC(A) |-> q - 1]), Len(ri), NC(A)) ELSE Err
      [] op = "get_columns" -> LET ci == RangeIdx(e.cols) IN
                               IF InRange(ci, NC(A)) THEN Mrc(SubM(A, [q \in 1..NR(A) |-> q - 1], ci), NR(A), Len(ci)) ELSE Err
      [] op = "h_delete_cols" -> LET c == Without(NC(A), e.cols.l) IN Mrc(MCols(A, c), NR(A), Len(c))
      \* two operands
      [] op = "mul" -> IF NC(A) = NR(B) THEN Map11(MMul(A, B)) ELSE Err
      [] op = "mul_elementwise" -> IF SameShape(A, B) THEN Map12(MHad(A, B)) ELSE Err
      [] op = "div_elementwise" -> IF SameShape(A, B) THEN Map12(Zip(A, B, FDiv)) ELSE Err
      [] op = "add" -> IF SameShape(A, B) THEN Map12(MAdd(A, B)) ELSE Err
      [] op = "sub" -> IF SameShape(A, B) THEN Map12(MSub(A, B)) ELSE Err
      [] op = "add_by_vector" -> IF Fits(A, B) THEN Map12(Broadcast(A, B, FAdd)) ELSE Err
      [] op = "sub_by_vector" -> IF Fits(A, B) THEN Map12(Broadcast(A, B, FSub)) ELSE Err
      [] op = "mul_by_vector" -> IF Fits(A, B) THEN Map12(Broadcast(A, B, FMul)) ELSE Err
      [] op = "scale_by_row_vector" -> IF ColV(B) /\ NR(B) = NC(A) THEN Map12(MBuild(NR(A), NC(A), LAMBDA i, j : FMul(A[i][j], B[j][1]))) ELSE Err
      [] op = "scale_by_column_vector" -> IF ColV(B) /\ NR(B) = NR(A) THEN Map12(MBuild(NR(A), NC(A), LAMBDA i, j : FMul(A[i][j], B[i][1]))) ELSE Err
      [] op = "vector_dot" -> IF Vec(A) /\ Vec(B) /\ Len(VecEls(A)) = Len(VecEls(B)) THEN Nap(FDot(VecEls(A), VecEls(B))) ELSE Err
      [] op \in {"concat_0", "concat_along_rows"} -> IF NC(A) = NC(B) THEN Mex(A \o B) ELSE Err
      [] op \in {"concat_1", "concat_along_columns"} -> IF NR(A) = NR(B) THEN Mex(MHCat(A, B)) ELSE Err
      [] op = "h_concat3_0" -> IF NC(A) = NC(B) THEN Mex(A \o B \o A) ELSE Err
      [] op = "h_concat3_1" -> IF NR(A) = NR(B) THEN Mex(MHCat(MHCat(A, B), A)) ELSE Err
      [] op = "same_shape_as" -> Bool(SameShape(A, B))
      [] op = "is_multiplicable_with" -> Bool(NC(A) = NR(B))
      [] op = "vector_size_matches" -> Bool(Fits(A, B))
      [] op = "eq" -> Bool(SameShape(A, B) /\ \A i \in 1..NR(A) : \A j \in 1..NC(A) : FEq(A[i][j], B[i][j]))
      [] op = "ne" -> Bool(~(SameShape(A, B) /\ \A i \in 1..NR(A) : \A j \in 1..NC(A) : FEq(A[i][j], B[i][j])))
      [] op = "h_equal" -> Bool(SameShape(A, B) /\ \A i \in 1..NR(A) : \A j \in 1..NC(A) :
                                   \/ FIsNaN(A[i][j]) /\ FIsNaN(B[i][j])
                                   \/ FEq(A[i][j], B[i][j])
                                   \/ FLe(FAbs(FSub(A[i][j], B[i][j])), e.s))
      \* operations that modify their matrix
      [] op \in {"add_by_vector_modify", "sub_by_vector_modify", "mul_by_vector_modify", "div_by_vector_modify"} ->
            IF Fits(A, B) THEN None ELSE Err
      [] op = "set" -> IF e.i < NR(A) /\ e.j < NC(A) THEN None ELSE Err
      [] op = "set_row" -> IF Vec(B) /\ e.i < NR(A) THEN None ELSE Err
      [] op = "set_column" -> IF Vec(B) /\ e.i < NC(A) THEN None ELSE Err
      [] op = "h_fill_diagonal" -> None

\* Contents after the call (a refused call changes nothing)
After(op, A, B, e) ==
    IF Want(op, A, B, e).k = "err" THEN A ELSE
    CASE op = "add_by_vector_modify" -> Broadcast(A, B, FAdd)
      [] op = "sub_by_vector_modify" -> Broadcast(A, B, FSub)
      [] op = "mul_by_vector_modify" -> Broadcast(A, B, FMul)
      [] op = "div_by_vector_modify" -> Broadcast(A, B, FDiv)
      [] op = "set" -> [A EXCEPT ![e.i + 1][e.j + 1] = e.s]
      \* a shorter vector replaces the leading entries, of a longer one only the leading entries are used
      [] op = "set_row" -> LET v == VecEls(B) IN [A EXCEPT ![e.i + 1] = [j \in 1..NC(A) |-> IF j <= Len(v) THEN v[j] ELSE A[e.i + 1][j]]]
      [] op = "set_column" -> LET v == VecEls(B) IN [i \in 1..NR(A) |-> IF i <= Len(v) THEN [A[i] EXCEPT ![e.i + 1] = v[i]] ELSE A[i]]
      [] op = "h_fill_diagonal" -> MBuild(NR(A), NC(A), LAMBDA i, j : IF i = j THEN e.s ELSE A[i][j])
      [] OTHER -> A

Agrees(res, w) ==
    CASE w.k = "err"  -> Raised(res)
      [] w.k = "any"  -> TRUE
      [] w.k = "none" -> res.ok
      [] w.k = "mat"  -> /\ IsMat(res) /\ res.v.r = w.r /\ res.v.c = w.c
                         /\ IF w.r = 0 \/ w.c = 0 THEN TRUE
                            ELSE IF w.tol = 0 THEN MClose(res.v.d, w.m, F0, F0)
                            ELSE MNearRel(res.v.d, w.m, Eps(w.tol)) \/ MClose(res.v.d, w.m, F0, Eps(w.tol))
      [] w.k = "num"  -> IsNumber(res) /\ (IF w.tol = 0 THEN FClose(NumOf(res), w.x, F0, F0) ELSE FClose(NumOf(res), w.x, Eps(w.tol), Eps(w.tol)))
      [] w.k = "bool" -> res.ok /\ res.v.t = "bool" /\ res.v.b = w.x
      [] w.k = "int"  -> IsInt(res) /\ res.v.i = w.x
      [] w.k = "str"  -> res.ok /\ res.v.t = "str" /\ res.v.s = w.x
      [] w.k = "ints" -> res.ok /\ res.v.t = "list" /\ [q \in 1..Len(res.v.l) |-> res.v.l[q].i] = w.x
      [] w.k = "pairs" -> res.ok /\ res.v.t = "list" /\ [q \in 1..Len(res.v.l) |-> <<res.v.l[q].l[1].i, res.v.l[q].l[2].i>>] = w.x
      [] w.k = "nums" -> res.ok /\ res.v.t = "list" /\ [q \in 1..Len(res.v.l) |-> res.v.l[q].f] = w.x
=============================================================================
