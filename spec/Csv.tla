-------------------------------- MODULE Csv --------------------------------
(***************************************************************************)
(* Text tables.  A file is a header (or none) and data rows; a cell is      *)
(* [k |-> "num", f |-> number] or [k |-> "junk"] (cannot be parsed).         *)
(* Reading takes the width from the first data row; junk and missing cells   *)
(* are zero, cells beyond the width are dropped.                             *)
(***************************************************************************)
EXTENDS Obs
CellVal(c) == IF c.k = "num" THEN c.f ELSE F0
DataRows(lines, header) == IF header THEN SubSeq(lines, 2, Len(lines)) ELSE lines
ReadTable(lines, header) ==
    LET d == DataRows(lines, header)  w == Len(d[1])
    IN MBuild(Len(d), w, LAMBDA i, j : IF j <= Len(d[i]) THEN CellVal(d[i][j]) ELSE F0)
Readable(lines, header) == Len(lines) > 0 /\ Len(DataRows(lines, header)) > 0

\* the largest error a number written with k decimals may have: half a unit of the last digit
FixedOk(x, y, k) == IF FIsFinite(x) THEN FIsFinite(y) /\ FLe(FAbs(FSub(x, y)), FAdd(FMul(FRat(1, 2), FTen(-k)), FMul(Eps(15), FMul(F2, FAbs(x)))))
                    ELSE FClose(x, y, F0, F0)
\* scientific notation with k decimals of the mantissa: relative half unit (a mantissa is at least 1)
SciOk(x, y, k) == IF FIsFinite(x) THEN FIsFinite(y) /\ FLe(FAbs(FSub(x, y)), FMul(FAbs(x), FAdd(FMul(FRat(1, 2), FTen(-k)), Eps(15))))
                  ELSE FClose(x, y, F0, F0)
=============================================================================
