------------------------------- MODULE C04Gen -------------------------------
EXTENDS QCases
Base == [op |-> "", o |-> "o1", p |-> 0, d |-> 1, how |-> 0, q |-> "", what |-> "", k |-> 0]
New(o, p) == [Base EXCEPT !.op = "new", !.o = o, !.p = p]
Train(o, d, how) == [Base EXCEPT !.op = "train", !.o = o, !.d = d, !.how = how]
Ask(o, q) == [Base EXCEPT !.op = "ask", !.o = o, !.q = q]
Mut(o, what, k) == [Base EXCEPT !.op = "mutate", !.o = o, !.what = what, !.k = k]
Tinker(o) == [Base EXCEPT !.op = "tinker", !.o = o]
Case(c, w) == [kind |-> "obj", cls |-> c, w |-> w]
MSC == "MultiplicativeScatterCorrection"
Some(c) == {Q(c)[1], Q(c)[Len(Q(c))], Q(c)[1 + (Len(Q(c)) \div 2)]}
Datas(c) == IF c = MSC THEN {1, 2} ELSE 1..6
\* a way of training that a class has
Hows(c) == IF c \in TransfClasses THEN {0, 1} ELSE {0}
Refusals(c) == IF c \in TransfClasses THEN {3} ELSE IF c \in Algs THEN {2, 3} ELSE {}
\* one object whose matrices are overwritten between the questions
Alone(c) ==
    {Case(c, <<New("o1", p), Train("o1", 1, h), Mut("o1", "T", k), Mut("o1", "R", k), Ask("o1", x), Mut("o1", "Q", k), Mut("o1", "R", k), Ask("o1", x)>>) :
        p \in Pick({0}, 0..2), h \in Hows(c), k \in 0..2, x \in SetOf(Q(c))}
    \cup {Case(c, <<New("o1", p), Train("o1", d, h), Mut("o1", "T", 0), Mut("o1", "R", 0), Ask("o1", x), Mut("o1", "R", 1), Mut("o1", "Q", 1), Ask("o1", x)>>) :
        p \in 0..2, d \in Datas(c), h \in Hows(c), x \in SetOf(Q(c))}
    \cup {Case(c, <<New("o1", 0), Train("o1", 2, 0), Ask("o1", x), Mut("o1", "R", k), Ask("o1", y)>>) :
        k \in Pick({0}, 0..2), x \in SetOf(Q(c)), y \in Pick(Some(c), SetOf(Q(c)))}
\* trainings that fail leave their data alone, and the next one is not affected
Failing(c) ==
    {Case(c, <<New("o1", p), Train("o1", d, h), Mut("o1", "T", 1)>> \o (IF c = "DIPLS" THEN <<>> ELSE <<Train("o1", 2, 0), Ask("o1", Q(c)[1 + (d % Len(Q(c)))])>>)) :
        p \in 0..2, d \in Datas(c), h \in Refusals(c)}
\* two objects
Meet(c) ==
    {Case(c, <<New("o1", p1), New("o2", p2), Train("o1", d1, 0), Train("o2", d2, 0), Ask("o1", x), Ask("o2", y), Ask("o1", x)>>) :
        p1 \in Pick({0}, 0..2), p2 \in Pick({0, 1}, 0..2), d1 \in {1}, d2 \in {1, 2}, x \in SetOf(Q(c)), y \in Some(c)}
    \cup {Case(c, <<New("o1", 0), Train("o1", 1, 0), New("o2", 1), Ask("o1", x), Train("o2", 2, 0), Ask("o1", x), Mut("o2", "T", 0), Ask("o1", x), Ask("o2", x)>>) : x \in SetOf(Q(c))}
    \cup {Case(c, <<New("o1", 3), New("o2", 3), Tinker("o1"), Train("o2", 1, 0), Ask("o2", x), New("o1", 3), Train("o1", 1, 0), Ask("o1", x)>>) :
            x \in (IF c = "FastICA" THEN {"mats"} ELSE SetOf(Q(c)))}
Steps(c) ==
    LET qs == [o \in {"o1", "o2"} |-> [i \in 1..Len(Q(c)) |-> Ask(o, Q(c)[i])]]
        ms(o) == <<Mut(o, "T", 0), Mut(o, "Q", 1), Mut(o, "R", 2)>>
        ts == IF c = "DIPLS" \/ c = "MultiFilter" THEN <<>> ELSE <<Train("o1", 2, 0), Train("o2", 1, 0)>>
    IN qs["o1"] \o qs["o2"] \o ms("o1") \o ms("o2") \o ms("o1") \o ms("o2") \o ts
Wander(c) == {Case(c, <<New("o1", k % 3), New("o2", (k \div 3) % 3), Train("o1", 1 + (k % 2), 0), Train("o2", 1, 0)>> \o Walk(k, 14, Steps(c))) : k \in 1..Pick(8, 120)}
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>>
           ELSE SetToSeq(Alone(Head(cs)) \cup Failing(Head(cs)) \cup Meet(Head(cs)) \cup Wander(Head(cs))) \o Cat(Tail(cs))
\* operations of Matrix and helper with the kinds of their operands:
\* M like the receiver, T transposed, W column count like receiver rows, S number, I row index, J column index, R row vector, C column vector, V vector of indices, F function, P predicate
MOps == << <<"add", "M">>, <<"add", "S">>, <<"sub", "M">>, <<"sub", "S">>, <<"mul", "T">>, <<"mul", "S">>, <<"mul_elementwise", "M">>, <<"div_elementwise", "M">>,
  <<"div", "S">>, <<"pow_elementwise", "S">>, <<"sqrt">>, <<"exp">>, <<"tanh">>, <<"abs">>, <<"sign">>, <<"transpose">>, <<"copy">>, <<"inverse">>, <<"pseudo_inverse">>,
  <<"get_row", "I">>, <<"get_column", "J">>, <<"get_rows", "RR">>, <<"get_columns", "CC">>, <<"get_sub_matrix", "RR", "CC">>, <<"get_sub_matrix", "RL", "CL">>,
  <<"get_eigenvectors">>, <<"get_eigenvectors_sorted_ascending">>, <<"get_eigenvectors_sorted_descending">>, <<"get_dominant_eigenvector">>,
  <<"get_eigenvalue_decomposition_V">>, <<"get_eigenvalue_decomposition_D">>, <<"get_eigenvalues">>, <<"get_eigenvalues_sorted_descending">>,
  <<"get_eigenvalues_sorted_ascending">>, <<"svd_U">>, <<"svd_V">>, <<"svd_S">>, <<"get_singular_values">>, <<"sum">>, <<"sum", "A0">>, <<"sum", "A1">>,
  <<"mean">>, <<"mean", "A0">>, <<"mean", "A1">>, <<"norm1">>, <<"norm2">>, <<"norm2_squared">>, <<"normalized">>, <<"normalized", "A1">>,
  <<"is_vector">>, <<"same_shape_as", "M">>, <<"is_multiplicable_with", "T">>, <<"scale_by_row_vector", "R">>, <<"scale_by_column_vector", "C">>,
  <<"add_by_vector", "R">>, <<"add_by_vector", "C">>, <<"sub_by_vector", "R">>, <<"mul_by_vector", "R">>, <<"sub_by_vector", "C">>, <<"mul_by_vector", "C">>,
  <<"vector_dot", "M">>, <<"set", "I", "J", "S">>, <<"set_row", "I", "R">>, <<"set_column", "J", "C">>, <<"add_by_vector_modify", "R">>, <<"sub_by_vector_modify", "C">>,
  <<"mul_by_vector_modify", "R">>, <<"div_by_vector_modify", "C">>, <<"to_raw_copy_1D">>, <<"to_raw_copy_2D">>, <<"concat", "M", "A0">>, <<"concat", "M", "A1">>,
  <<"concat_along_rows", "M">>, <<"concat_along_columns", "M">>, <<"apply_elementwise", "F">>, <<"clip", "S", "S9">>, <<"clip_lower", "S">>, <<"clip_upper", "S">>,
  <<"max">>, <<"median">>, <<"where_vector", "P">>, <<"head", "I2">>, <<"diag">>, <<"reduce_rows_L1">>, <<"reduce_columns_L1">>, <<"reduce_rows_L2">>, <<"reduce_columns_L2">>,
  <<"contains_NaN">>, <<"any", "P">>, <<"all", "P">>, <<"which", "P">>, <<"trace">>, <<"row_str", "I">>, <<"shape_string">>, <<"vector_to_diagonal">>,
  <<"num_elements">>, <<"__eq__", "M">>, <<"__str__">>, <<"serialise_state", "IO">>,
  <<"helper.delete_col", "J">>, <<"helper.delete_cols", "CL">>, <<"helper.row_as_vector", "I">>, <<"helper.mean", "J">>, <<"helper.stdev", "J">>,
  <<"helper.column_as_vector", "J">>, <<"helper.euclidean_distance", "M", "B">>, <<"helper.row_norms", "B">>, <<"helper.equal", "M">>, <<"helper.to_string">>,
  <<"helper.inverse">>, <<"helper.row_means">>, <<"helper.column_means">>, <<"helper.row_stdevs">>, <<"helper.column_stdevs">>, <<"helper.fill_diagonal", "S">>,
  <<"helper.solve", "C">>, <<"helper.solve", "M">>, <<"helper.multi_concat", "M">>, <<"factory.eye_like">>, <<"factory.zeros_like">>, <<"factory.filled_like", "S">>,
  <<"factory.randn_like", "I2">>, <<"factory.rand_like", "I2">>, <<"factory.diag">> >>
Shapes == <<"3x4", "3x3", "sym", "1x4", "4x1", "1x1", "5x2">>
MCases == [x \in 1..(Len(MOps) * Len(Shapes)) |->
             [kind |-> "mat", name |-> MOps[1 + ((x - 1) % Len(MOps))][1], args |-> Tail(MOps[1 + ((x - 1) % Len(MOps))]), shape |-> Shapes[1 + ((x - 1) \div Len(MOps))]]]
C_Cases == Cat(SetToSeq(All)) \o MCases
=============================================================================
