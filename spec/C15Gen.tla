------------------------------- MODULE C15Gen -------------------------------
EXTENDS Enum
Sz == {<<2, 1>>, <<2, 2>>, <<3, 2>>, <<5, 3>>, <<10, 4>>, <<12, 8>>, <<4, 7>>, <<3, 12>>, <<30, 5>>, <<60, 3>>, <<140, 4>>, <<520, 3>>}
SzT == Sz \cup {<<n, p>> : n \in {6, 9, 20}, p \in {1, 2, 4, 6, 10}} \cup {<<200, 4>>, <<5, 30>>}
Kd == {"generic", "offset", "int", "dup", "spectra", "const", "const0", "constmid", "ties", "sparse", "equi", "huge", "tiny", "micro12", "macro12"}
Sh == {<<95, 100>>, <<1, 2>>, <<1, 1000>>, <<9999, 10000>>, <<3, 4>>}
Ok(s, k) == ~(s[1] = 2 /\ k = "dup") /\ ~(s[2] = 1 /\ k \in {"const", "const0", "constmid"})
C_Cases == SetToSeq({c \in [op : {"pca"}, sz : Pick(Sz, SzT), kind : Kd, share : Sh, max : {-1, 1, 2, 5, 20}, center : BOOLEAN, rep : 1..Pick(1, 4)] : Ok(c.sz, c.kind)})
=============================================================================
