-------------------------------- MODULE Cca --------------------------------
EXTENDS Obs
Reg(A, l) == MAdd(MMul(MT(A), A), MScale(MId(NC(A)), l))
InvSqrt(A) == SymFun(A, LAMBDA x : FDiv(F1, FSqrt(x)))
\* squared canonical correlations, descending
CanonicalSq(X, Y, lx, ly) ==
    LET R == InvSqrt(Reg(X, lx))
        Cxy == MMul(MT(X), Y)
    IN SymEigVals(MMul(MMul(MMul(MMul(R, Cxy), MInv(Reg(Y, ly))), MT(Cxy)), R))
=============================================================================
