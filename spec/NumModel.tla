------------------------------ MODULE NumModel ------------------------------
(***************************************************************************)
(* The operators that TLC evaluates in Java (java/Float64.java for the      *)
(* matrix operators of Float64, java/Mat.java for MSolve and SymEig) give    *)
(* the bit patterns of their TLA+ definitions, on a walk over matrices of    *)
(* several shapes whose entries come from a linear congruential generator.   *)
(***************************************************************************)
EXTENDS Mat, IOUtils
VARIABLES k, seed
Steps == IF "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough" THEN 60 ELSE 12
Lcg(x) == ((x * 1103) + 12347) % 65521
RECURSIVE Rnd(_, _)
Rnd(s, n) == IF n = 0 THEN <<>> ELSE <<FDiv(FSub(FInt(s), FInt(32760)), FInt(7919))>> \o Rnd(Lcg(s), n - 1)
RECURSIVE RMat(_, _, _)
RMat(s, n, m) == IF n = 0 THEN <<>> ELSE <<Rnd(s, m)>> \o RMat(Lcg(Lcg(s + (31 * n))), n - 1, m)
Init == k = 0 /\ seed = 1
Next == k < Steps /\ k' = k + 1 /\ seed' = Lcg(seed)
Spec == Init /\ [][Next]_<<k, seed>>
N == 1 + (seed % 5)
M == 1 + ((seed \div 5) % 4)
A == RMat(seed, N, M)
B == RMat(Lcg(seed + 1), N, M)
S0 == RMat(Lcg(seed + 2), N, N)
S == Force([i \in 1..N |-> [j \in 1..N |-> IF i <= j THEN S0[i][j] ELSE S0[j][i]]])
\* definitions of Float64, restated so that no override applies
RECURSIVE DSum(_)
DSum(s) == IF s = <<>> THEN F0 ELSE FAdd(DSum(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
DDot(s, t) == DSum([i \in 1..Len(s) |-> FMul(s[i], t[i])])
DT(X) == [j \in 1..Len(X[1]) |-> [i \in 1..Len(X) |-> X[i][j]]]
DMul(X, Y) == [i \in 1..Len(X) |-> [j \in 1..Len(Y[1]) |-> DDot(X[i], [l \in 1..Len(Y) |-> Y[l][j]])]]
RECURSIVE DMax(_)
DMax(s) == IF s = <<>> THEN F0 ELSE FMax(FAbs(Head(s)), DMax(Tail(s)))
Same == /\ \A i \in 1..N : FSum(A[i]) = DSum(A[i]) /\ FDot(A[i], B[i]) = DDot(A[i], B[i]) /\ VMaxAbs(A[i]) = DMax(A[i])
        /\ MMagn(A) = DMax([i \in 1..N |-> DMax(SelectSeq(A[i], FIsFinite))])
        /\ MT(A) = DT(A)
        /\ MMul(MT(A), B) = DMul(DT(A), B)
        /\ MAdd(A, B) = [i \in 1..N |-> [j \in 1..M |-> FAdd(A[i][j], B[i][j])]]
        /\ MSub(A, B) = [i \in 1..N |-> [j \in 1..M |-> FSub(A[i][j], B[i][j])]]
        /\ MHad(A, B) = [i \in 1..N |-> [j \in 1..M |-> FMul(A[i][j], B[i][j])]]
        /\ MScale(A, F2) = [i \in 1..N |-> [j \in 1..M |-> FMul(A[i][j], F2)]]
        /\ MSolve(S0, B) = MSolveDef(S0, B)
        /\ SymEig(S) = SymEigDef(S)
\* and the definitions mean what their names say
Means == /\ MNear(MMul(S0, MSolve(S0, B)), B, FTen(-8)) \/ FLt(FTen(6), MMaxAbs(MInv(S0)))
         /\ LET e == SymEig(S) IN /\ OrthoCols(e.v, FTen(-12))
                                  /\ MNear(MMul(S, e.v), MMul(e.v, MDiag(e.d)), FTen(-12))
                                  /\ FClose(MTrace(S), FSum(e.d), FTen(-12), FTen(-12))
=============================================================================
