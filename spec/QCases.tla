------------------------------- MODULE QCases -------------------------------
(* The queries of every class, by name. *)
EXTENDS Enum, ALife
TransfClasses == {"Center", "Standardize", "RowNorm", "RobustScaler", "PowerTransformer", "QuantileTransformer", "Log", "SavitzkyGolay",
                  "SavitzkyGolay2", "FFT", "PassThrough", "MultiplicativeScatterCorrection"}
FilterClasses == {"Downsample", "Equidistance", "MultiFilter", "SGFilter"}
KernelClasses == {"LinearKernel", "RBFKernel", "PolyKernel"}
HasInverse(c) == c \in {"Center", "Standardize", "RowNorm", "RobustScaler", "PowerTransformer", "QuantileTransformer", "Log", "PassThrough"}
Ser(c) == IF c \in {"SIMPLS", "Log", "Standardize", "SavitzkyGolay", "SavitzkyGolay2"} THEN <<"serialise">> ELSE <<>>
Tr == <<"transform", "transformTrain", "transformRow", "transformBad", "transformFault0", "transformFault2">>
Q(c) == Ser(c) \o <<"status">> \o
        (IF c \in PlsAlgs THEN Tr \o <<"predict", "predictTrain", "predictRow", "predictBad", "predictFault1", "predictFault4", "mats", "str", "transformZero", "predictZero">> \o (IF c \in {"NIPALS", "CCARegression"} THEN <<"respond">> ELSE <<>>)
         ELSE IF c = "CCAFilter" THEN Tr \o <<"response", "responseBad", "mats", "str">>
         ELSE IF c \in GlswAlgs THEN Tr \o <<"mats", "str", "transformZero">>
         ELSE IF c = "PCA" THEN <<"mats", "coeff", "extract", "str">>
         ELSE IF c = "FastICA" THEN <<"mats", "reconstruct", "str">>
         ELSE IF c \in KernelClasses THEN <<"matrix", "matrix2", "matrixBad", "vector", "vectorShort">>
         ELSE Tr \o (IF c \in {"SavitzkyGolay", "SavitzkyGolay2"} THEN <<"transformWindow">> ELSE <<>>) \o (IF HasInverse(c) THEN <<"inverse", "inverseTrain", "inverseRow", "inverseBad", "inverseFault1">> ELSE <<>>))
All == Algs \cup TransfClasses \cup FilterClasses \cup KernelClasses
SetOf(q) == {q[i] : i \in 1..Len(q)}
=============================================================================
