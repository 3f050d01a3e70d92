-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* What a driver records about one call: [ok, err, v] where v is a tagged   *)
(* value ("mat" with rows d, "num" with f, "int", "bool", "str", "bytes",   *)
(* "list", "none", ...).                                                    *)
(***************************************************************************)
EXTENDS Mat, Sequences

IsMat(r)    == r.ok /\ r.v.t = "mat"
IsNum(r)    == r.ok /\ r.v.t = "num"
IsInt(r)    == r.ok /\ r.v.t = "int"
Raised(r)   == ~r.ok /\ r.err # "TIMEOUT"
HasShape(r, n, m) == IsMat(r) /\ r.v.r = n /\ r.v.c = m
MatIs(r, A)       == IsMat(r) /\ r.v.r = NR(A) /\ r.v.c = NC(A) /\ r.v.d = A     \* bit for bit
MatNear(r, A, tol)    == IsMat(r) /\ r.v.r = NR(A) /\ r.v.c = NC(A) /\ MNear(r.v.d, A, tol)
MatNearRel(r, A, tol) == IsMat(r) /\ r.v.r = NR(A) /\ r.v.c = NC(A) /\ MNearRel(r.v.d, A, tol)
SameAns(a, b) == a.ok = b.ok /\ a.v = b.v                                        \* same outcome
\* numbers may come back as Python ints
NumOf(r) == IF r.v.t = "int" THEN FInt(r.v.i) ELSE r.v.f
IsNumber(r) == r.ok /\ r.v.t \in {"num", "int"}
\* set of names of the clauses that do not hold
Clauses(s) == {s[k][1] : k \in {j \in 1..Len(s) : ~s[j][2]}}
Eps(k) == FTen(-k)
=============================================================================
