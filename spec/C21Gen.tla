------------------------------- MODULE C21Gen -------------------------------
EXTENDS Enum
Seps == {",", ";", "\t", "::", "|"}
Sh == {<<1, 1>>, <<1, 5>>, <<4, 1>>, <<3, 4>>, <<25, 3>>, <<130, 2>>, <<2, 60>>}
Via == {"file", "handle", "string"}
R == {[op |-> "roundtrip", via |-> v, sep |-> s, sh |-> sh, kind |-> kd, header |-> h, dec |-> d, sci |-> FALSE]
        : v \in {"file", "handle"}, s \in Pick({",", "\t", "::"}, Seps), sh \in Sh, kd \in {"generic", "special", "offset"}, h \in BOOLEAN, d \in {-1, 0, 3, 10}}
     \cup {[op |-> "roundtrip", via |-> v, sep |-> ",", sh |-> sh, kind |-> kd, header |-> h, dec |-> d, sci |-> TRUE]
        : v \in {"file", "handle"}, sh \in {<<1, 1>>, <<4, 3>>}, kd \in {"generic", "special", "huge", "tiny", "offset", "int"}, h \in BOOLEAN, d \in {0, 2, 6, 12, 17}}
     \cup {[op |-> "roundtrip", via |-> v, sep |-> ";", sh |-> sh, kind |-> kd, header |-> h, dec |-> d, sci |-> FALSE]
        : v \in {"file", "handle"}, sh \in {<<1, 1>>, <<4, 3>>}, kd \in {"huge", "tiny", "int", "zero", "neg", "edge", "extreme"}, h \in BOOLEAN, d \in {-1, 0, 1, 2, 5, 8}}
     \cup {[op |-> "roundtrip", via |-> "string", sep |-> s, sh |-> sh, kind |-> kd, header |-> h, dec |-> d, sci |-> FALSE]
        : s \in {"\t", ","}, sh \in Sh, kd \in {"generic", "special"}, h \in BOOLEAN, d \in {-1, 0, 6}}
\* tables with missing, extra and unparsable cells: "n" number, "j" junk, "e" empty, "s" number with blanks, "x" scientific, "a" nan, "f" infinity
Rows == {<<"n">>, <<"n", "n">>, <<"n", "j">>, <<"j", "n", "n">>, <<"e", "n">>, <<"s", "x">>, <<"a", "f", "n">>, <<"e">>, <<"n", "n", "n", "n">>}
Files == {<<>>} \cup {<<r>> : r \in Rows} \cup {<<r, q>> : r \in Rows, q \in Rows}
         \cup {<<r, q, p>> : r \in Pick({<<"n", "n">>, <<"j", "n", "n">>}, Rows), q \in Rows, p \in Rows}
T == {[op |-> "read", via |-> v, sep |-> s, header |-> h, nl |-> nl, rows |-> f] : v \in {"file", "handle"}, s \in {",", "\t"}, h \in BOOLEAN, nl \in BOOLEAN, f \in Files}
Big == {[op |-> "roundtrip", via |-> v, sep |-> ",", sh |-> sh, kind |-> "generic", header |-> h, dec |-> d, sci |-> FALSE]
        : v \in {"file", "handle"}, sh \in {<<700, 2>>, <<1100, 1>>, <<2, 300>>, <<1, 1100>>}, h \in BOOLEAN, d \in {-1, 3}}
C_Cases == SetToSeq(R) \o SetToSeq(Big) \o SetToSeq(T)
=============================================================================
