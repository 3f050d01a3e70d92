------------------------------- MODULE C07Gen -------------------------------
EXTENDS Enum
Sh == Pick({<<1, 1>>, <<1, 4>>, <<2, 1>>, <<2, 3>>, <<3, 2>>, <<5, 4>>, <<30, 3>>, <<3, 25>>, <<300, 2>>, <<2, 140>>},
           {<<1, 1>>, <<1, 4>>, <<2, 1>>, <<2, 3>>, <<3, 2>>, <<5, 4>>, <<6, 1>>, <<30, 3>>, <<3, 25>>, <<120, 4>>, <<4, 60>>, <<300, 2>>})
Kinds == {"generic", "offset", "int", "ties", "const", "const0", "constmid", "allconst", "zero", "huge", "tiny", "sparse", "dup", "tenth", "shifted", "micro12", "macro12", "grades"}
Reps == Pick({1}, 1..4)
Cl == {[cls |-> c, par |-> 0, kind |-> k, dkind |-> d, sh |-> sh, r2 |-> r2, rep |-> r]
         : c \in {"Center", "Standardize", "PassThrough"}, k \in Kinds, d \in {"generic", "const", "offset"}, sh \in Sh, r2 \in {1, 4}, r \in Reps}
Rb == {[cls |-> "RobustScaler", par |-> p, kind |-> k, dkind |-> "generic", sh |-> sh, r2 |-> r2, rep |-> r]
         : p \in 0..4, k \in {"generic", "offset", "int", "ties", "const", "allconst", "dup", "huge", "tiny", "micro", "micro12", "grades"}, sh \in {<<1, 1>>, <<1, 3>>, <<2, 2>>, <<5, 3>>, <<31, 2>>, <<140, 2>>, <<2, 140>>}, r2 \in {1, 4}, r \in Reps}
Lg == {[cls |-> "Log", par |-> p, kind |-> k, dkind |-> "pos", sh |-> sh, r2 |-> r2, rep |-> r]
         : p \in 0..6, k \in {"pos", "posgen", "skew"}, sh \in {<<1, 1>>, <<3, 4>>, <<1, 5>>, <<6, 1>>, <<20, 3>>, <<300, 2>>, <<2, 140>>}, r2 \in {1, 4}, r \in Reps}
Pw == {[cls |-> "PowerTransformer", par |-> p, kind |-> k, dkind |-> "posgen", sh |-> sh, r2 |-> r2, rep |-> r]
         : p \in 0..3, k \in {"posgen", "skew"}, sh \in {<<5, 2>>, <<8, 3>>, <<25, 2>>, <<140, 2>>, <<5, 40>>}, r2 \in {1, 4}, r \in Reps}
      \cup {[cls |-> "PowerTransformer", par |-> p, kind |-> "generic", dkind |-> "generic", sh |-> sh, r2 |-> r2, rep |-> r]
         : p \in 0..1, sh \in {<<5, 2>>, <<8, 3>>, <<25, 2>>}, r2 \in {1, 4}, r \in Reps}
Qt == {[cls |-> "QuantileTransformer", par |-> p, kind |-> k, dkind |-> "generic", sh |-> sh, r2 |-> 1, rep |-> r]
         : p \in 0..1, k \in {"generic", "int", "dup", "offset", "const"}, sh \in {<<2, 2>>, <<5, 3>>, <<12, 2>>, <<40, 2>>, <<140, 2>>, <<1100, 1>>}, r \in Reps}
Ff == {[cls |-> "FFT", par |-> p, kind |-> k, dkind |-> "generic", sh |-> <<r1, c>>, r2 |-> r2, rep |-> r]
         : p \in 0..3, k \in {"generic", "const", "zero", "offset", "spectra", "huge", "tiny", "micro12", "specks"}, r1 \in {1, 2, 3, 6}, c \in {1, 2, 3, 4, 5, 8, 9, 17, 32, 130, 257}, r2 \in {1, 4}, r \in Reps}
No == {[cls |-> c, par |-> p, kind |-> k, dkind |-> "none", sh |-> <<r1, 9>>, r2 |-> r2, rep |-> 1]
         : c \in {"SavitzkyGolay", "SavitzkyGolay2", "YGradientGLSWSavitzkyGolayFilter", "MultiplicativeScatterCorrection"}, p \in 0..1, k \in {"generic"}, r1 \in {1, 4}, r2 \in {1, 4}}
      \cup {[cls |-> "FFT", par |-> p, kind |-> k, dkind |-> "none", sh |-> <<r1, c>>, r2 |-> r2, rep |-> 1]
         : p \in 4..11, k \in {"generic"}, r1 \in {1, 4}, c \in {1, 4, 5}, r2 \in {1, 4}}
LgN == {[cls |-> "Log", par |-> p, kind |-> k, dkind |-> "pos", sh |-> sh, r2 |-> r2, rep |-> r]
         : p \in 7..8, k \in {"pos", "posgen"}, sh \in {<<1, 1>>, <<3, 4>>, <<1, 5>>, <<6, 1>>, <<20, 3>>}, r2 \in {1, 4}, r \in Reps}
Pr == {[cls |-> "RowNorm", par |-> 0, kind |-> "generic", dkind |-> "probe", sh |-> <<3, 4>>, r2 |-> 3, rep |-> 1]}
C_Cases == SetToSeq(Cl) \o SetToSeq(Rb) \o SetToSeq(Lg \cup LgN) \o SetToSeq(Pw) \o SetToSeq(Qt) \o SetToSeq(Ff) \o SetToSeq(No \cup Pr)
=============================================================================
