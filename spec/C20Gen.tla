------------------------------- MODULE C20Gen -------------------------------
EXTENDS Enum
P2 == [k \in 0..30 |-> IF k = 0 THEN 1 ELSE 2 ^ k]
Ints == {0, 1, -1, 127, 128, 255, 256, -128, -129, -255, -256, -257, 32767, 32768, 65535, 65536, 16777215, 16777216, -16777216, 2147483647, -2147483647}
        \cup {P2[k] : k \in 0..30} \cup {-P2[k] : k \in 0..30} \cup {P2[k] - 1 : k \in 0..30}
I == {[op |-> "int", n |-> k] : k \in Ints}
O == {[op |-> "int-range", e |-> k, neg |-> b] : k \in {31, 32, 33, 40, 64}, b \in BOOLEAN}
D == {[op |-> "real", i |-> k] : k \in 1..Pick(40, 300)}
S == {[op |-> "str", i |-> k] : k \in 1..Pick(20, 100)}
T == {[op |-> "other-type", i |-> k] : k \in 1..3}
B == {[op |-> "big", e |-> k, d |-> d, neg |-> b] : k \in 0..Pick(70, 300), d \in {-1, 0, 1}, b \in BOOLEAN}
M == {[op |-> "state", cls |-> "Matrix", r |-> sh[1], c |-> sh[2], kind |-> kd, dir |-> dr, lay |-> la] : la \in {"C", "F", "T", "S"}, sh \in {<<1, 1>>, <<1, 5>>, <<6, 1>>, <<3, 4>>, <<40, 3>>, <<300, 2>>, <<2, 300>>}, kd \in {"generic", "huge", "special", "int", "specks"}, dr \in {"none", "one", "deep", "existing"}}
St == {[op |-> "state", cls |-> cl, r |-> r, c |-> c, kind |-> kd, dir |-> dr] : cl \in {"Standardize", "SavitzkyGolay", "SavitzkyGolay2", "SIMPLS"}, r \in {6, 12}, c \in {9, 12}, kd \in {"generic", "offset"}, dr \in {"none", "one", "deep", "existing"}}
L == {[op |-> "log", base |-> b, offset |-> q] : b \in {8, 11, 2, 40, 0}, q \in {0, 4, 10}}
N == {[op |-> "nothing", cls |-> cl, how |-> h] : cl \in {"Standardize", "SavitzkyGolay", "SavitzkyGolay2", "SIMPLS"}, h \in {"new", "reset", "param"}}
Pr == {[op |-> "probe-get", cls |-> "Matrix"]}
C_Cases == SetToSeq(I) \o SetToSeq(O) \o SetToSeq(D) \o SetToSeq(S) \o SetToSeq(T) \o SetToSeq(B) \o SetToSeq(M) \o SetToSeq(St) \o SetToSeq(L) \o SetToSeq(N) \o SetToSeq(Pr)
=============================================================================
