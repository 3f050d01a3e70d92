------------------------------- MODULE C10Gen -------------------------------
\* Cases of the filter specification: one filter or chain, a sequence of matrices pushed through it with
\* parameter changes in between.
EXTENDS Enum

F(k, a, b) == [f |-> k, a |-> a, b |-> b]
T(r, c, kind) == [op |-> "transform", r |-> r, c |-> c, kind |-> kind, k |-> 0, a |-> 0, b |-> 0]
S(k, a, b) == [op |-> "set", r |-> 0, c |-> 0, kind |-> "", k |-> k, a |-> a, b |-> b]
Case(fs, steps) == [filters |-> fs, order |-> [k \in 1..Len(fs) |-> k], nest |-> 0, steps |-> steps]

\* every small width, start, step; every small width and sample count
Ds == {Case(<<F("ds", s, t)>>, <<T(2, c, "generic")>>) : c \in 1..Pick(9, 16), s \in 0..Pick(6, 12), t \in 1..Pick(6, 12)}
Eq == {Case(<<F("eq", k, 0)>>, <<T(2, c, "generic")>>) : c \in 1..Pick(14, 40), k \in 2..Pick(15, 40)}
Big == {Case(<<F("eq", k, 0)>>, <<T(r, c, kind)>>) : r \in {1, 3}, c \in {1, 49, 50, 94, 100, 257}, k \in {2, 3, 25, 50, 99, 100, 101, 310},
                                                     kind \in Pick({"offset"}, {"offset", "spectra", "huge", "tiny", "micro12", "grades"})}
       \cup {Case(<<F("ds", s, t)>>, <<T(r, c, "ramp")>>) : r \in {1, 70}, c \in {1, 50, 101}, s \in {0, 1, 49, 50, 100}, t \in {1, 2, 7, 50, 99}} \cup {Case(<<f>>, <<T(r, c, "generic")>>) : f \in {F("eq", 7, 0), F("eq", 300, 0), F("ds", 2, 3), F("ds", 300, 40)}, r \in {1, 300}, c \in {140, 700}}
       \cup {Case(<<F("eq", k, 0)>>, <<T(1, c, "generic")>>) : c \in {2, 3, 5}, k \in {2500, 4001}}
       \cup {Case(<<F("eq", 20, 0), F("ds", 1, 2), F("cen", 0, 0)>>, <<T(300, 140, "generic"), T(1, 140, "offset")>>)}

\* one object, several matrices of different widths, parameters changed in between
Hist == {Case(<<F("ds", 0, 1)>>, <<T(2, c1, "generic"), S(1, s, t), T(2, c2, "int"), T(3, c1, "generic"), S(1, t, 1), T(1, c2, "generic")>>)
            : c1 \in {1, 4, 7}, c2 \in {2, 5, 30}, s \in 0..2, t \in 1..3}
        \cup {Case(<<F("eq", 5, 0)>>, <<T(2, c1, "generic"), S(1, k, 0), T(2, c2, "int"), T(3, c1, "generic"), S(1, k + 1, 0), T(1, c2, "generic")>>)
            : c1 \in {1, 4, 7}, c2 \in {2, 5, 30}, k \in {2, 3, 6, 11}}
\* chains
Fs == {F("ds", 0, 2), F("ds", 1, 1), F("eq", 4, 0), F("eq", 7, 0), F("cen", 0, 0), F("id", 0, 0)}
Chains == UNION {[1..n -> Fs] : n \in 0..Pick(2, 3)}
          \cup (IF Thorough THEN {} ELSE {<<f, g, h>> : f \in {F("ds", 1, 1), F("eq", 7, 0), F("cen", 0, 0)}, g \in Fs, h \in {F("ds", 0, 2), F("eq", 4, 0), F("cen", 0, 0)}})
\* a chain that centres must see the same width every time
Seen == {Case(ch, <<T(3, c, "generic"), T(2, c, "offset"), T(1, c, "generic")>>) : ch \in Chains, c \in Pick({9}, {5, 9, 12})}

\* the same object in several places; chains inside chains
Orders == {<<1, 1>>, <<1, 1, 1>>, <<1, 2, 1>>, <<1, 2, 2>>, <<2, 1, 1, 2>>, <<1, 1, 2, 2>>}
Shared == {[filters |-> <<f, g>>, order |-> o, nest |-> 0, steps |-> <<T(3, 12, "generic"), T(2, 12, "offset")>>]
              : f \in {F("ds", 0, 2), F("eq", 5, 0), F("ds", 1, 1), F("id", 0, 0)}, g \in {F("ds", 0, 1), F("eq", 9, 0), F("id", 0, 0)}, o \in Orders}
Nested == {[filters |-> <<f, g, h>>, order |-> <<1, 2, 3>>, nest |-> k, steps |-> <<T(3, 12, "generic"), T(2, 12, "offset")>>]
              : f \in Fs, g \in {F("ds", 0, 2), F("eq", 7, 0)}, h \in {F("ds", 1, 1), F("eq", 4, 0), F("cen", 0, 0)}, k \in {0, 1, 2}}

C_Cases == SetToSeq(Ds \cup Eq \cup Big \cup Hist \cup Seen \cup Shared \cup Nested)
=============================================================================
