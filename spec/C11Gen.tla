------------------------------- MODULE C11Gen -------------------------------
EXTENDS Enum

Small == {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<4, 1>>, <<2, 2>>, <<3, 3>>, <<2, 3>>, <<3, 2>>, <<4, 2>>, <<2, 4>>}
Shapes == Small \cup {<<1, 33>>, <<40, 1>>, <<6, 7>>, <<9, 3>>, <<70, 2>>, <<300, 2>>, <<2, 300>>}
Kinds == {"generic", "int", "ties", "huge", "tiny", "neg", "offset", "zero", "sparse", "specks"}

Unary == {"transpose", "t", "copy", "raw2d", "str", "raw1d", "exp", "tanh", "abs", "sign", "apply", "sum_all", "sum_m1", "sum_0", "sum_1",
          "sum_2", "mean_2", "mean_all", "mean_m1", "mean_0", "mean_1", "h_column_means", "h_row_means", "h_column_stdevs", "h_row_stdevs",
          "norm1", "norm2", "norm2sq", "normalized_0", "normalized_1", "max", "median", "diag", "trace", "is_vector", "is_row_vector",
          "is_column_vector", "is_square", "num_rows", "num_columns", "num_elements", "shape_string", "h_dim", "contains_NaN", "as_real",
          "vector_to_diagonal", "head_default"}
OneIdx == {"head", "get_from_vector", "get_row", "h_row_as_vector", "get_column", "h_column_as_vector", "h_mean_col", "h_mean_row",
           "h_stdev_col", "h_stdev_row", "h_delete_col"}
Scal == {"where_vector", "which", "any", "all", "mul_s", "div_s", "add_s", "sub_s", "pow_s", "clip", "clip_lower", "clip_upper"}
Binary == {"mul", "mul_elementwise", "div_elementwise", "add", "sub", "add_by_vector", "sub_by_vector", "mul_by_vector", "scale_by_row_vector",
           "scale_by_column_vector", "vector_dot", "concat_0", "concat_along_rows", "concat_1", "concat_along_columns", "h_concat3_0", "h_concat3_1",
           "same_shape_as", "is_multiplicable_with", "vector_size_matches", "eq", "ne", "h_equal",
           "add_by_vector_modify", "sub_by_vector_modify", "mul_by_vector_modify", "div_by_vector_modify"}

U == {[m |-> m, sh |-> sh, kind |-> kd] : m \in Unary \ {"normalized_0", "normalized_1", "h_column_stdevs", "h_row_stdevs"}, sh \in Shapes, kd \in Kinds}
     \cup {[m |-> m, sh |-> sh, kind |-> kd] : m \in {"normalized_0", "normalized_1", "sqrt"}, sh \in Shapes, kd \in {"pos", "ramp1"}}
     \cup {[m |-> "h_column_stdevs", sh |-> sh, kind |-> kd] : sh \in {x \in Shapes : x[1] > 1}, kd \in Kinds}
     \cup {[m |-> "h_row_stdevs", sh |-> sh, kind |-> kd] : sh \in {x \in Shapes : x[2] > 1}, kd \in Kinds}
     \cup {[m |-> m, sh |-> sh, kind |-> kd] : m \in {"contains_NaN", "copy", "transpose"}, sh \in Shapes, kd \in {"nan1", "nanlast"}}
     \cup {[m |-> m, sh |-> sh, kind |-> kd] : m \in {"contains_NaN", "copy", "transpose", "t", "abs", "sign", "max", "raw2d", "raw1d", "str", "diag", "head_default", "exp", "tanh"},
                                               sh \in Shapes, kd \in {"inf1", "infneg"}}
Bound(m, sh) == CASE m \in {"h_mean_col", "h_stdev_col"} -> sh[2] - 1
                  [] m \in {"h_mean_row", "h_stdev_row"} -> sh[1] - 1
                  [] OTHER -> (IF sh[1] > sh[2] THEN sh[1] ELSE sh[2]) + 1
Need(m, sh) == CASE m = "h_stdev_col" -> sh[1] > 1 [] m = "h_stdev_row" -> sh[2] > 1 [] OTHER -> TRUE
I == UNION {{[m |-> m, sh |-> sh, kind |-> "generic", i |-> i] : i \in {0, 1, 2, 3, Bound(m, sh) - 1, Bound(m, sh)} \cap 0..Bound(m, sh)}
                : m \in OneIdx, sh \in Shapes} 
IOk == {c \in I : Need(c.m, c.sh) /\ (c.m # "head" \/ c.i > 0)}
\* scalars are given in quarters
S == {[m |-> m, sh |-> sh, kind |-> kd, s |-> s, t |-> t] : m \in Scal \ {"pow_s"}, sh \in Small, kd \in Kinds, s \in {-6, 1, 4}, t \in {-4, 1, 8}}
     \cup {[m |-> "pow_s", sh |-> sh, kind |-> kd, s |-> s, t |-> 0] : sh \in Shapes, kd \in {"pos", "int1"}, s \in {0, 2, 4, 8, 12, 16, -2, -4}}
     \cup {[m |-> m, sh |-> sh, kind |-> "inf1", s |-> s, t |-> t] : m \in {"where_vector", "which", "any", "all", "clip", "clip_lower", "clip_upper"}, sh \in Small, s \in {-6, 4}, t \in {-4, 8}}
B == {[m |-> m, sh |-> sh, kind |-> "generic", sh2 |-> sh2, kind2 |-> kd, s |-> 2] : m \in Binary \ {"eq", "ne", "h_equal"}, sh \in Small, sh2 \in Small, kd \in Pick({"int1"}, {"int1", "generic", "offset"})}
     \cup {[m |-> m, sh |-> <<r, c>>, kind |-> "generic", sh2 |-> <<c, d>>, kind2 |-> "int1", s |-> 2] : m \in {"mul", "is_multiplicable_with"}, r \in {1, 7, 30}, c \in {1, 5, 40}, d \in {1, 6, 20}}
     \cup {[m |-> m, sh |-> sh, kind |-> kd, sh2 |-> sh2, kind2 |-> kd2, s |-> s]
              : m \in {"eq", "ne", "h_equal"}, sh \in Small, sh2 \in Small, kd \in {"ties"}, kd2 \in {"ties", "near"}, s \in {0, 1}}
     \cup {[m |-> m, sh |-> sh, kind |-> kd, sh2 |-> sh, kind2 |-> kd2, s |-> s]
              : m \in {"eq", "h_equal"}, sh \in Shapes, kd \in {"generic", "nan1", "inf1", "huge", "tiny", "zero"}, kd2 \in {"same", "same-last", "same-first", "same-mid", "nan1", "nanlast", "inf1", "infneg"}, s \in {0, 1}}
     \cup {[m |-> "ne", sh |-> sh, kind |-> kd, sh2 |-> sh, kind2 |-> kd2, s |-> 0]
              : sh \in Shapes, kd \in {"generic", "nan1", "inf1"}, kd2 \in {"same", "same-last", "nan1", "infneg"}}
Specs(n) == {[k |-> "list", l |-> l] : l \in {<<>>, <<0>>, <<n - 1>>, <<n - 1, 0>>, <<0, 0>>, <<n>>}}
            \cup {[k |-> "range", l |-> l] : l \in {<<0, n>>, <<1, n>>, <<0, n - 1>>, <<0, n, 2>>, <<n, n>>, <<0, n + 1>>}}
X == UNION {{[m |-> "get_sub_matrix", sh |-> sh, kind |-> "generic", rows |-> a, cols |-> b] : a \in Specs(sh[1]), b \in Specs(sh[2])}
            \cup {[m |-> "get_rows", sh |-> sh, kind |-> "generic", rows |-> a, cols |-> [k |-> "list", l |-> <<>>]] : a \in Specs(sh[1])}
            \cup {[m |-> "get_columns", sh |-> sh, kind |-> "generic", cols |-> a, rows |-> [k |-> "list", l |-> <<>>]] : a \in Specs(sh[2])}
            \cup {[m |-> "h_delete_cols", sh |-> sh, kind |-> "generic", cols |-> a, rows |-> [k |-> "list", l |-> <<>>]] : a \in {x \in Specs(sh[2]) : x.k = "list"}} : sh \in Small}
Mod == UNION {{[m |-> "set", sh |-> sh, kind |-> "generic", i |-> i, j |-> j, s |-> 5] : i \in {0, 1, sh[1] - 1, sh[1]}, j \in {0, sh[2] - 1, sh[2]}} : sh \in Small}
Get == UNION {{[m |-> "get", sh |-> sh, kind |-> "generic", i |-> i, j |-> j, s |-> 5] : i \in {0, 1, sh[1] - 1, sh[1]}, j \in {0, 1, sh[2] - 1, sh[2]}} : sh \in Small}
ModV == {[m |-> m, sh |-> sh, kind |-> "generic", sh2 |-> sh2, kind2 |-> "int", i |-> i, s |-> 0] : m \in {"set_row", "set_column"}, sh \in Small, sh2 \in Small, i \in {0, 1, 3}}
Fil == {[m |-> "h_fill_diagonal", sh |-> sh, kind |-> "generic", s |-> s] : sh \in Shapes, s \in {0, 5}}

C_Cases == SetToSeq(U) \o SetToSeq(IOk) \o SetToSeq(S) \o SetToSeq(B) \o SetToSeq(X) \o SetToSeq(Mod) \o SetToSeq(Get) \o SetToSeq(ModV) \o SetToSeq(Fil)
=============================================================================
