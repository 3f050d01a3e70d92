------------------------------- MODULE QLife -------------------------------
(***************************************************************************)
(* Queries and isolation.  State: for every object the first answer to      *)
(* every query since its model last changed.                                *)
(*   train   object o gets a (new) model: its answers are forgotten         *)
(*   ask     the answer must be the remembered one                          *)
(*   mutate  the caller overwrites matrices it handed over or received:     *)
(*           nothing is forgotten and nothing changes                       *)
(* Requests never change their arguments (before / after).                  *)
(***************************************************************************)
EXTENDS Obs, TLC
TransfClasses == {"Center", "Standardize", "RowNorm", "RobustScaler", "PowerTransformer", "QuantileTransformer", "Log", "SavitzkyGolay",
                  "SavitzkyGolay2", "FFT", "PassThrough", "MultiplicativeScatterCorrection"}
FilterClasses == {"Downsample", "Equidistance", "MultiFilter", "SGFilter"}
KernelClasses == {"LinearKernel", "RBFKernel", "PolyKernel"}
HasInverse(c) == c \in {"Center", "Standardize", "RowNorm", "RobustScaler", "PowerTransformer", "QuantileTransformer", "Log", "PassThrough", "FFT"}
QInit == [o1 |-> <<>>, o2 |-> <<>>]
Known(m, q) == \E i \in 1..Len(m) : m[i].q = q
Recall(m, q) == m[CHOOSE i \in 1..Len(m) : m[i].q = q].r
QNext(s, e) ==
    CASE e.op = "train" -> [s EXCEPT ![e.o] = <<>>]
      [] e.op = "ask" -> IF Known(s[e.o], e.q) THEN s ELSE [s EXCEPT ![e.o] = Append(@, [q |-> e.q, r |-> e.res])]
      [] OTHER -> s
Scale(A) == FMax(F1, MMaxAbs(A))
SameVal(x, y) ==
    /\ x.ok = y.ok
    /\ x.ok => /\ x.v.t = y.v.t
               /\ IF x.v.t = "mat" THEN MatNear(x, y.v.d, FMul(Eps(10), Scale(y.v.d)))
                  ELSE IF x.v.t = "num" THEN FClose(x.v.f, y.v.f, Eps(12), Eps(12)) ELSE x.v = y.v
SameAsBefore(s, e) == Known(s[e.o], e.q) => SameVal(e.res, Recall(s[e.o], e.q))
ArgsUntouched(e) == Len(e.before) = Len(e.after) /\ \A i \in 1..Len(e.before) : e.before[i] = e.after[i]
=============================================================================
