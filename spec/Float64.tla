------------------------------ MODULE Float64 ------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers for TLC.                                       *)
(*                                                                          *)
(* A number is the pair <<hi, lo>> of the signed 32-bit halves of its bit   *)
(* pattern, so it survives JSON and TLC's 32-bit integers unchanged.        *)
(* The scalar operators below are abstract (rounded real arithmetic, which  *)
(* TLA+ has no literals for); TLC evaluates them with the Java class of the *)
(* same name (java/Float64.java), which only converts the pair to a double, *)
(* applies the JVM's operator and converts back.  The vector and matrix     *)
(* operators have their real definitions here in terms of the scalar ones;  *)
(* the overrides of those are an optimisation.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Word == -2147483647..2147483647
F64  == Word \X Word

FInt(n)       == CHOOSE z \in F64 : TRUE  \* the number n
FAdd(x, y)    == CHOOSE z \in F64 : TRUE  \* round(x + y), and so on
FSub(x, y)    == CHOOSE z \in F64 : TRUE
FMul(x, y)    == CHOOSE z \in F64 : TRUE
FDiv(x, y)    == CHOOSE z \in F64 : TRUE
FNeg(x)       == CHOOSE z \in F64 : TRUE
FAbs(x)       == CHOOSE z \in F64 : TRUE
FSqrt(x)      == CHOOSE z \in F64 : TRUE
FExp(x)       == CHOOSE z \in F64 : TRUE
FLn(x)        == CHOOSE z \in F64 : TRUE
FTanh(x)      == CHOOSE z \in F64 : TRUE
FCos(x)       == CHOOSE z \in F64 : TRUE
FSin(x)       == CHOOSE z \in F64 : TRUE
FAtan2(y, x)  == CHOOSE z \in F64 : TRUE
FPow(x, y)    == CHOOSE z \in F64 : TRUE
FLt(x, y)     == CHOOSE b \in BOOLEAN : TRUE  \* IEEE comparisons: false on NaN
FLe(x, y)     == CHOOSE b \in BOOLEAN : TRUE
FEq(x, y)     == CHOOSE b \in BOOLEAN : TRUE
FIsNaN(x)     == CHOOSE b \in BOOLEAN : TRUE
FIsInf(x)     == CHOOSE b \in BOOLEAN : TRUE
FIsFinite(x)  == CHOOSE b \in BOOLEAN : TRUE

F0 == FInt(0)
F1 == FInt(1)
F2 == FInt(2)
FRat(n, d) == FDiv(FInt(n), FInt(d))
FTen(k)    == FPow(FInt(10), FInt(k))
FGt(x, y)  == FLt(y, x)
FGe(x, y)  == FLe(y, x)
FMax(x, y) == IF FLt(x, y) THEN y ELSE x
FMin(x, y) == IF FLt(y, x) THEN y ELSE x
FSqr(x)    == FMul(x, x)

(* equal, both NaN, or finite and within atol + rtol * max(|x|, |y|) *)
FClose(x, y, atol, rtol) ==
    \/ FEq(x, y)
    \/ FIsNaN(x) /\ FIsNaN(y)
    \/ /\ FIsFinite(x) /\ FIsFinite(y)
       /\ FLe(FAbs(FSub(x, y)), FAdd(atol, FMul(rtol, FMax(FAbs(x), FAbs(y)))))

(* Identity; TLC evaluates the argument completely (no lazy functions). *)
Force(v) == v

RECURSIVE FSum(_)
FSum(s) == IF s = <<>> THEN F0 ELSE FAdd(FSum(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

FDot(s, t) == FSum([k \in 1..Len(s) |-> FMul(s[k], t[k])])

RECURSIVE VMaxAbs(_)
VMaxAbs(s) == IF s = <<>> THEN F0 ELSE FMax(FAbs(Head(s)), VMaxAbs(Tail(s)))

(* A matrix is a sequence of rows. *)
MMaxAbs(A) == VMaxAbs([i \in 1..Len(A) |-> VMaxAbs(A[i])])
(* the largest finite magnitude *)
MMagn(A) == VMaxAbs([i \in 1..Len(A) |-> VMaxAbs(SelectSeq(A[i], FIsFinite))])
MMul(A, B) == [i \in 1..Len(A) |->
                 [j \in 1..(IF B = <<>> THEN 0 ELSE Len(B[1])) |->
                    FDot(A[i], [k \in 1..Len(B) |-> B[k][j]])]]
MT(A)      == IF A = <<>> THEN <<>>
              ELSE [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
MAdd(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> FAdd(A[i][j], B[i][j])]]
MSub(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> FSub(A[i][j], B[i][j])]]
MHad(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> FMul(A[i][j], B[i][j])]]
MScale(A, s) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> FMul(A[i][j], s)]]
MClose(A, B, atol, rtol) ==
    /\ Len(A) = Len(B)
    /\ \A i \in 1..Len(A) : /\ Len(A[i]) = Len(B[i])
                            /\ \A j \in 1..Len(A[i]) : FClose(A[i][j], B[i][j], atol, rtol)
=============================================================================
