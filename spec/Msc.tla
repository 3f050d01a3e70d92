-------------------------------- MODULE Msc --------------------------------
(***************************************************************************)
(* Multiplicative scatter correction.  Spectra are two-column matrices      *)
(* (wave number, amplitude); the configuration has one amplitude column per *)
(* spectrum.                                                                *)
(***************************************************************************)
EXTENDS Obs
Average(cfg) == Force([i \in 1..NR(cfg) |-> VMean(SubSeq(cfg[i], 2, NC(cfg)))])
InRange(rg, w) == FLe(rg[1], w) /\ FLe(w, rg[2])
Inside(rg, A) == {i \in 1..NR(A) : InRange(rg, A[i][1])}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
\* least-squares line y = b + m x
LineFit(x, y) == LET mx == VMean(x)  my == VMean(y)
                     sxy == FSum(Force([k \in 1..Len(x) |-> FMul(FSub(x[k], mx), FSub(y[k], my))]))
                     sxx == FSum(Force([k \in 1..Len(x) |-> FSqr(FSub(x[k], mx))]))
                     m == FDiv(sxy, sxx)
                 IN [m |-> m, b |-> FSub(my, FMul(m, mx))]
\* how much the rounding of the data is amplified by the slope of the fitted lines
LineCond(x, y) == LET mx == VMean(x)  my == VMean(y)
                      sxy == FSum(Force([k \in 1..Len(x) |-> FMul(FSub(x[k], mx), FSub(y[k], my))]))
                  IN FDiv(FMul(FInt(Len(x)), FMul(VMaxAbs(x), VMaxAbs(y))), FAbs(sxy))
RECURSIVE CorrectCond(_, _, _)
CorrectCond(avg, filt, ranges) ==
    IF ranges = <<>> THEN F1
    ELSE LET is == Ascending(Inside(Head(ranges), filt))
             c == IF is = <<>> THEN F1
                  ELSE FMax(F1, LineCond(Force([k \in 1..Len(is) |-> avg[is[k]]]), Force([k \in 1..Len(is) |-> filt[is[k]][2]])))
         IN FMul(c, CorrectCond(avg, filt, Tail(ranges)))
RECURSIVE Correct(_, _, _, _)
\* avg: average spectrum, filt: pre-filtered spectrum, res: corrected so far
Correct(avg, filt, res, ranges) ==
    IF ranges = <<>> THEN res
    ELSE LET rg == Head(ranges)
             is == Ascending(Inside(rg, filt))
         IN IF is = <<>> THEN Correct(avg, filt, res, Tail(ranges))
            ELSE LET f == LineFit(Force([k \in 1..Len(is) |-> avg[is[k]]]), Force([k \in 1..Len(is) |-> filt[is[k]][2]]))
                     nxt == Force([i \in 1..NR(res) |-> IF InRange(rg, res[i][1])
                                        THEN <<res[i][1], FDiv(FSub(res[i][2], f.b), f.m)>> ELSE res[i]])
                 IN Correct(avg, filt, nxt, Tail(ranges))
=============================================================================
