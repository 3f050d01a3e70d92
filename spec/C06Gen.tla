------------------------------- MODULE C06Gen -------------------------------
EXTENDS Enum, TLife
Classes == {"Center", "Standardize", "RowNorm", "RobustScaler", "PowerTransformer", "QuantileTransformer", "Log", "SavitzkyGolay", "SavitzkyGolay2",
            "FFT", "PassThrough", "MultiplicativeScatterCorrection"}
HasInv(c) == c \in {"Center", "Standardize", "RobustScaler", "PowerTransformer", "QuantileTransformer", "Log", "PassThrough"}
HasPar(c) == c \in {"RobustScaler", "PowerTransformer", "QuantileTransformer", "Log", "SavitzkyGolay", "SavitzkyGolay2", "FFT"}
Refuses(c) == c \in {"RobustScaler", "PowerTransformer", "QuantileTransformer"}
A(a, d) == [a |-> a, d |-> d]
\* data set 3 has another width, data set 4 constant columns
Acts(c) == <<A("T", 1), A("T", 2), A("T", 4), A("T", 5), A("C", 1), A("C", 2), A("C", 5), A("R", 0)>>
           \o (IF c = "MultiplicativeScatterCorrection" THEN <<>> ELSE <<A("T", 3), A("C", 3), A("T", 6), A("C", 6)>>)
           \o (IF HasPar(c) THEN <<A("P", 0), A("P", 1), A("P", 2)>> ELSE <<>>)
           \o (IF Refuses(c) THEN <<A("T", Unusable), A("C", Unusable)>> ELSE <<>>)
           \o (IF HasInv(c) THEN <<A("I", 1), A("I", 4)>> ELSE <<>>)
Own(c) == c = "RowNorm"
\* each walk ends with probes of the configuration
Probe == <<A("T", 2), A("T", 1)>>
ShortLen == Pick(2, 3)
Short(c) == LET acts == Acts(c) IN
            {[cls |-> c, own |-> Own(c), walk |-> Annotate(Own(c), TInit, w \o Probe)] : w \in [1..ShortLen -> {acts[i] : i \in 1..Len(acts)}]}
Long(c) == {[cls |-> c, own |-> Own(c), walk |-> Annotate(Own(c), TInit, Walk(k, 14, Acts(c)) \o Probe)] : k \in 1..Pick(25, 250)}
\* walks of length 3 without the actions that are covered in short ones
Mid(c) == LET acts == {A("T", 1), A("T", 2), A("C", 2), A("R", 0)} \cup (IF HasPar(c) THEN {A("P", 1)} ELSE {}) \cup (IF Refuses(c) THEN {A("C", Unusable), A("T", Unusable)} ELSE {}) IN
          {[cls |-> c, own |-> Own(c), walk |-> Annotate(Own(c), TInit, w \o Probe)] : w \in [1..3 -> acts]}
AllOf(c) == SetToSeq(Short(c) \cup Mid(c) \cup Long(c))
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>> ELSE AllOf(Head(cs)) \o Cat(Tail(cs))
\* the one-call forms, mixed with an object of the class in use
Quick == {[cls |-> c, own |-> FALSE, walk |-> w] : c \in {"Center", "RowNorm", "Standardize", "Log"},
          w \in [1..3 -> {[a |-> a, d |-> d, cfg |-> 0, par |-> 0] : a \in {"S", "H"}, d \in 1..6}]}
Called == {x \in Quick : \E i \in 1..3 : x.walk[i].a = "S"}
C_Cases == SetToSeq(Called) \o  Cat(SetToSeq(Classes))
=============================================================================
