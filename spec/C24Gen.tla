------------------------------- MODULE C24Gen -------------------------------
EXTENDS Enum, ALife
RowTransf == {"Center", "Standardize", "RowNorm", "RobustScaler", "PowerTransformer", "QuantileTransformer", "Log", "SavitzkyGolay", "SavitzkyGolay2", "FFT", "PassThrough"}
RowFilters == {"Downsample", "Equidistance", "MultiFilter"}
\* (YGradientGLSW's SavitzkyGolayFilter is a derivative ALONG the samples: rows depend on their neighbours on purpose)
KernelC == {"LinearKernel", "RBFKernel", "PolyKernel"}
Invertible == {"Center", "Standardize", "RobustScaler", "PowerTransformer", "QuantileTransformer", "Log", "PassThrough"}
Trainable == PlsAlgs \cup GlswAlgs \cup {"CCAFilter"}
Fs(c) == IF c \in PlsAlgs THEN {"predict", "transform"} ELSE IF c = "CCAFilter" THEN {"transform", "response"}
         ELSE IF c \in KernelC THEN {"matrix"} ELSE IF c \in Invertible THEN {"transform", "inverse"} ELSE {"transform"}
M == 6
\* six rows: 1..4 ordinary, 5 an outlier, 6 a training row
Perms == {p \in [1..M -> 1..M] : \A i, j \in 1..M : i # j => p[i] # p[j]}
Swaps == {<<1, 2, 3, 4, 5, 6>>, <<6, 5, 4, 3, 2, 1>>, <<2, 1, 4, 3, 6, 5>>, <<5, 1, 2, 3, 4, 6>>, <<4, 6, 2, 5, 1, 3>>}
Subsets == {<<1>>, <<5>>, <<1, 2>>, <<5, 6>>, <<2, 5>>, <<3, 4, 6>>, <<1, 2, 3>>, <<4, 5, 6>>, <<6, 1, 3, 2>>, <<2, 3, 4, 5, 6>>}
Repeats == {<<1, 1>>, <<5, 5, 5>>, <<1, 2, 1, 2>>, <<3, 3, 1, 5, 3>>, <<6, 6, 6, 6, 6, 6, 6>>}
Long == {[i \in 1..n |-> 1 + (((i * k) + (i \div 6)) % 6)] : n \in {12, 13, 40}, k \in {1, 5}}
Huge == {[i \in 1..n |-> 1 + (((i * 7) + (i \div 6)) % 6)] : n \in {130, 300, 1100}}
Case(c, p, d, k, f, rs, pr) == [cls |-> c, p |-> p, d |-> d, kind |-> k, f |-> f, rows |-> rs, probe |-> pr]
Rnd(k) == RndSeq(k, 4 + (k % 9), M)
Rows == Swaps \cup Subsets \cup Repeats \cup Long \cup {Rnd(k) : k \in 1..Pick(5, 60)} 
Kinds == {"generic", "ties"}
Datas(c) == IF c \in Trainable \cup RowTransf THEN 1..5 ELSE {1, 3}
Of(c) == {Case(c, p, d, k, f, rs, FALSE) : p \in 0..2, d \in Datas(c), k \in Kinds, f \in Fs(c), rs \in Pick({<<1, 2, 3, 4, 5, 6>>, <<6, 5, 4, 3, 2, 1>>, <<5, 5, 1, 2, 1>>, <<2, 3>>}, Rows)}
         \cup {Case(c, p, 1, "generic", f, rs, FALSE) : p \in {0, 1}, f \in Fs(c), rs \in Rows}
         \cup {Case(c, 0, 1, "generic", f, rs, FALSE) : f \in Fs(c), rs \in Huge}
         \cup {Case(c, p, 2, "wide", f, rs, FALSE) : p \in {0, 1}, f \in Fs(c), rs \in Swaps \cup Repeats}
         \cup (IF Thorough THEN {Case(c, 0, 1, "generic", f, rs, FALSE) : f \in Fs(c), rs \in Perms} ELSE {})
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>> ELSE SetToSeq(Of(Head(cs))) \o Cat(Tail(cs))
Probes == <<Case("SparsePLS", 0, 1, "generic", "transform", <<1, 2, 3, 4>>, TRUE), Case("FFT", 0, 1, "generic", "transform", <<1, 2, 3, 4>>, TRUE)>>
C_Cases == Cat(SetToSeq(Trainable \cup RowTransf \cup RowFilters \cup KernelC)) \o Probes
=============================================================================
