------------------------------- MODULE C08Gen -------------------------------
EXTENDS Enum
Sh == Pick({<<1, 1>>, <<1, 4>>, <<2, 1>>, <<2, 3>>, <<3, 2>>, <<5, 4>>, <<6, 1>>, <<30, 3>>, <<3, 25>>, <<300, 2>>, <<2, 140>>},
           {<<1, 1>>, <<1, 4>>, <<2, 1>>, <<2, 3>>, <<3, 2>>, <<5, 4>>, <<6, 1>>, <<30, 3>>, <<3, 25>>, <<120, 4>>, <<4, 60>>, <<300, 2>>, <<7, 7>>})
Kinds == {"generic", "offset", "int", "ties", "const", "const0", "constmid", "allconst", "zero", "huge", "tiny", "sparse", "dup", "tenth", "shifted", "micro12", "macro12", "grades"}
DK == {"generic", "int", "const", "offset"}
Reps == Pick({1}, 1..4)
Cl == {[cls |-> c, kind |-> k, dkind |-> d, sh |-> sh, r2 |-> r2, via |-> v, rep |-> r]
         : c \in {"Center", "Standardize", "RowNorm", "PassThrough"}, k \in Kinds, d \in Pick({"generic", "const"}, DK), sh \in Sh,
           r2 \in {1, 4}, v \in {"configure", "first"}, r \in Reps}
Lg == {[cls |-> "Log", base |-> b, off |-> o, kind |-> k, sh |-> sh, rep |-> r]
         : b \in {<<0, 1>>, <<2, 1>>, <<10, 1>>, <<1, 2>>, <<3, 2>>, <<100, 1>>}, o \in {<<1, 1>>, <<0, 1>>, <<5, 2>>, <<-1, 2>>},
           k \in {"generic", "pos", "int", "zero", "tiny", "huge", "onebad"}, sh \in {<<1, 1>>, <<3, 4>>, <<1, 5>>, <<6, 1>>, <<300, 2>>, <<2, 140>>}, r \in Reps}
Rb == {[cls |-> "RobustScaler", centre |-> ce, scale |-> sc, q |-> q, kind |-> k, sh |-> sh, r2 |-> r2, rep |-> r]
         : ce \in BOOLEAN, sc \in BOOLEAN, q \in {<<250, 750>>, <<100, 900>>, <<5, 333>>, <<400, 995>>}, k \in {"generic", "offset", "int", "ties", "const", "allconst", "dup", "micro12", "macro12", "grades"},
           sh \in {<<1, 1>>, <<1, 3>>, <<2, 2>>, <<5, 3>>, <<8, 2>>, <<31, 2>>, <<140, 2>>, <<2, 140>>}, r2 \in {1, 4}, r \in Reps}
Pw == {[cls |-> "PowerTransformer", method |-> m, std |-> st, kind |-> k, sh |-> sh, r2 |-> r2, rep |-> r]
         : m \in {"yeo-johnson", "box-cox"}, st \in BOOLEAN, k \in {"posgen", "skew", "pos"}, sh \in {<<5, 2>>, <<8, 3>>, <<25, 2>>, <<140, 2>>, <<5, 40>>}, r2 \in {1, 4}, r \in Reps}
      \cup {[cls |-> "PowerTransformer", method |-> "yeo-johnson", std |-> st, kind |-> k, sh |-> sh, r2 |-> r2, rep |-> r]
         : st \in BOOLEAN, k \in {"generic", "neg"}, sh \in {<<5, 2>>, <<8, 3>>, <<25, 2>>}, r2 \in {1, 4}, r \in Reps}
Qt == {[cls |-> "QuantileTransformer", dist |-> d, nq |-> n, kind |-> k, sh |-> sh, r2 |-> r2, rep |-> r]
         : d \in {"uniform", "normal"}, n \in {1000, 5, 2}, k \in {"generic", "int", "ties", "const", "dup", "offset"},
           sh \in {<<1, 2>>, <<2, 2>>, <<5, 3>>, <<12, 2>>, <<40, 2>>, <<140, 2>>}, r2 \in {1, 6}, r \in Reps}
      \cup {[cls |-> "QuantileTransformer", dist |-> d, nq |-> n, kind |-> "generic", sh |-> <<1100, 1>>, r2 |-> 1, rep |-> 1] : d \in {"uniform", "normal"}, n \in {1000, 5}}
C_Cases == SetToSeq(Cl) \o SetToSeq(Lg) \o SetToSeq(Rb) \o SetToSeq(Pw) \o SetToSeq(Qt)
=============================================================================
