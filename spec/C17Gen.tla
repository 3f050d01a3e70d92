------------------------------- MODULE C17Gen -------------------------------
EXTENDS Enum
\* rows, columns of X, columns of Y
Sz == {<<5, 1, 1>>, <<6, 3, 2>>, <<6, 2, 3>>, <<10, 4, 4>>, <<4, 6, 2>>, <<5, 8, 3>>, <<5, 2, 9>>, <<20, 5, 1>>, <<20, 1, 4>>, <<40, 6, 5>>, <<3, 5, 5>>, <<2, 2, 2>>, <<110, 8, 3>>, <<12, 20, 2>>, <<300, 3, 2>>}
SzT == Sz \cup {<<n, p, q>> : n \in {4, 8, 15, 50}, p \in {1, 2, 3, 7}, q \in {1, 2, 5}}
Kd == {"generic", "offset", "int", "const0", "dup", "spectra"}
Lam == {<<1, 100>>, <<1, 1>>, <<50, 1>>}
\* little regularisation, where the arithmetic allows it
Weak == [op : {"cca"}, sz : Pick(Sz, SzT), kind : {"generic", "int", "dup"}, k : 1..2, lx : {<<1, 10000>>}, ly : {<<1, 10000>>, <<1, 100>>}, rep : 1..Pick(1, 3)]
C_Cases == SetToSeq(Weak \cup [op : {"cca"}, sz : Pick(Sz, SzT), kind : Kd, k : 1..4, lx : Lam, ly : Lam, rep : 1..Pick(1, 3)])
=============================================================================
