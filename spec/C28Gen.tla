------------------------------- MODULE C28Gen -------------------------------
EXTENDS Enum
Sq == {<<n, n>> : n \in Pick(1..5, 1..8)}
Rect == {<<1, 2>>, <<2, 1>>, <<1, 5>>, <<6, 1>>, <<2, 3>>, <<3, 2>>, <<5, 3>>, <<3, 5>>, <<20, 2>>, <<2, 20>>, <<50, 4>>, <<4, 50>>} \cup Pick({}, {<<200, 3>>, <<3, 200>>, <<7, 6>>, <<6, 7>>})
Reps == 1..Pick(6, 40)
S(m) == {[m |-> m, sh |-> sh, kind |-> kd, rep |-> k] : sh \in Sq, kd \in {"generic", "sym", "psd", "diag", "ident", "tri", "huge", "tiny", "perm", "zero"}, k \in Reps}
R(m) == {[m |-> m, sh |-> sh, kind |-> kd, rep |-> k] : sh \in Rect, kd \in {"generic", "huge", "tiny", "offset"}, k \in 1..Pick(3, 20)}
RZ(m) == {[m |-> m, sh |-> sh, kind |-> kd, rep |-> k] : sh \in Rect, kd \in {"zero", "allconst"}, k \in {1}}
Invertible(s) == {c \in s : c.kind # "zero"}
Wide(m) == {[m |-> m, sh |-> <<n, n>>, kind |-> kd, rep |-> k] : n \in {8, 12, 25, 60}, kd \in {"generic", "sym", "psd", "tri"}, k \in 1..2}
G(m, s) == {[m |-> m, sh |-> sh, kind |-> kd, rep |-> k] : sh \in s, kd \in {"gdiag", "grade", "micro12", "macro12"}, k \in 1..Pick(4, 12)}
C_Cases == SetToSeq(Wide("eig") \cup Wide("svd") \cup Wide("inv") \cup Wide("pinv") \cup Wide("solve") \cup S("eig") \cup {[m |-> "eig", sh |-> <<2, 3>>, kind |-> "generic", rep |-> 1]} \cup S("svd") \cup R("svd") \cup RZ("svd") \cup S("inv") \cup R("inv")
                    \cup Invertible(S("solve")) \cup S("pinv") \cup R("pinv") \cup RZ("pinv") \cup G("pinv", Sq \cup Rect) \cup G("inv", Sq \cup Rect) \cup G("svd", Sq \cup Rect) \cup G("solve", Sq) \cup G("eig", Sq))
=============================================================================
