------------------------------- MODULE C12Gen -------------------------------
\* Walks over updates, decomposition queries and scribbling on returned matrices.
EXTENDS Enum
EigQ == {"evals", "evals_desc", "evals_asc", "evecs", "evecs_desc", "evecs_asc", "evecs_dom", "V", "D", "dominant"}
SvdQ == {"svals", "S", "U", "W"}
Qs == EigQ \cup SvdQ
Us == {"set", "set_row", "set_column", "add_by_vector_modify", "sub_by_vector_modify", "mul_by_vector_modify", "div_by_vector_modify", "h_fill_diagonal"}
Xs == {"refused_set", "refused_row", "refused_vec", "copy_set", "transpose_set", "scribble", "set_last", "row_last", "column_last", "nudge", "permute_row", "permute_column"}
C(sh, kd, steps) == [sh |-> sh, kind |-> kd, steps |-> steps]
\* all query-update-query triples and query-other-query triples
T3 == {C(<<3, 3>>, kd, <<q, u, p>>) : q \in Qs, u \in Us \cup Xs, p \in Qs, kd \in Pick({"generic"}, {"generic", "sym", "int"})}
\* the same at other orders of magnitude
S3 == {C(<<2, 2>>, kd, <<q, u, p>>) : q \in {"evals", "svals", "V"}, u \in Us \cup Xs, p \in {"evals_asc", "S", "evecs_desc"}, kd \in {"tiny", "huge", "tinysym", "hugesym"}}
R3 == {C(sh, "generic", <<q, u, p>>) : q \in SvdQ, u \in Us \cup Xs, p \in SvdQ \cup {"evals"}, sh \in {<<2, 3>>, <<4, 2>>, <<1, 3>>}}
T5 == {C(<<2, 2>>, "sym", <<q, u, "scribble", p, v, q>>) : q \in Qs, u \in {"set", "mul_by_vector_modify", "h_fill_diagonal"}, p \in Qs, v \in {"set_row", "set_column", "refused_set", "scribble"}}
Acts == SetToSeq(Us) \o SetToSeq(Xs) \o SetToSeq(Qs)
Big == {C(<<n, n>>, kd, Walk(k, Pick(8, 30), Acts)) : k \in 1..Pick(4, 30), n \in {7, 10}, kd \in {"generic", "sym"}}
Long == {C(<<n, n>>, kd, Walk(k, Pick(14, 40), Acts)) : k \in 1..Pick(20, 150), n \in {1, 2, 3, 4}, kd \in {"generic", "sym", "tinysym", "hugesym"}}
C_Cases == SetToSeq(T3 \cup S3 \cup R3 \cup T5 \cup Long \cup Big)
=============================================================================
