------------------------------- MODULE C27Gen -------------------------------
EXTENDS Enum
Sh == {<<1, 1>>, <<1, 4>>, <<5, 1>>, <<2, 3>>, <<3, 2>>, <<4, 4>>, <<30, 7>>, <<3, 60>>, <<140, 2>>, <<2, 300>>, <<40, 40>>, <<1, 1100>>, <<1100, 1>>}
Det == {"zeros", "zeros_like", "zeros_sq", "eye", "eye_like", "eye_sq", "filled", "filled_like", "create_list", "create_array", "from_raw", "create_ints",
        "from_row", "from_column", "diag", "spectrum", "matrix_0d", "matrix_1d", "matrix_2d"}
B == {[op |-> "build", m |-> m, r |-> sh[1], c |-> sh[2], x |-> x, start |-> 0, kind |-> kd] : m \in Det, sh \in Sh, x \in {-7, 0, 10}, kd \in Pick({"generic"}, {"generic", "huge", "int", "tiny", "specks"})}
R == {[op |-> "build", m |-> "range", r |-> sh[1], c |-> sh[2], x |-> 0, start |-> st, kind |-> "int"] : sh \in Sh, st \in {-3, 0, 1, 1000}}
X == {[op |-> "refused", m |-> "spectrum_uneven", n |-> n, k |-> k] : n \in {0, 1, 3}, k \in {2, 4}}
Y == {[op |-> "refused", m |-> "array_of_dimension", n |-> n, k |-> k] : n \in {3, 4, 5}, k \in {1, 2}}
\* histories of random requests; noise = other uses of the global random generator in between
Q(m, sh, seed, mean, std) == [m |-> m, sh |-> sh, seed |-> seed, mean |-> mean, std |-> std]
N == Q("noise", <<1, 1>>, 0, 0, 0)
Rq == {Q(m, sh, sd, 0, 1) : m \in {"rand", "rand_like", "randn", "randn_like"}, sh \in {<<1, 1>>, <<2, 3>>, <<3, 2>>, <<6, 4>>}, sd \in {0, 1, 2, 7, 12345}}
      \cup {Q(m, <<2, 3>>, 1, 0, 1) : m \in {"rand_default", "randn_default"}}
H1 == {[op |-> "history", steps |-> <<q, N, q, N, N, q>>] : q \in Rq}
Acts == SetToSeq(Rq) \o <<N, N, N, N, N, N, N, N, N, N>>
H2 == {[op |-> "history", steps |-> Walk(k, Pick(60, 200), Acts)] : k \in 1..Pick(12, 60)}
\* every seed 0..n gives its own matrix
H3 == {[op |-> "history", steps |-> [k \in 1..40 |-> Q(m, <<2, 2>>, k - 1, 0, 1)]] : m \in {"rand", "randn", "rand_like", "randn_like"}}
\* distinct seeds that agree in their low digits or low bits
Far == <<0, 1, 2, 3, 257, 10, 11, 99, 101, 100, 1000, 1001, 10001, 65536, 65537, 65535, 100001, 1000000, 1000001, 16777217, 1073741825, 2147483647, 2147483646, 0, 1>>
H4 == {[op |-> "history", steps |-> [k \in 1..Len(Far) |-> Q(m, <<2, 2>>, Far[k], 0, 1)]] : m \in {"rand", "randn", "rand_like", "randn_like"}}
P == {[op |-> "probe", mean |-> 5, std |-> 2], [op |-> "probe", mean |-> 0, std |-> 1]}
C_Cases == SetToSeq(B) \o SetToSeq(R) \o SetToSeq(X \cup Y) \o SetToSeq(H1 \cup H2 \cup H3 \cup H4) \o SetToSeq(P)
=============================================================================
