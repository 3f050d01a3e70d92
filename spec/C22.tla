-------------------------------- MODULE C22 --------------------------------
EXTENDS Utils, Conform
C_InitSt == 0
C_NextSt(s, e) == s
Ints(v) == [k \in 1..Len(v.l) |-> v.l[k].i]
IsInts(r) == r.ok /\ r.v.t = "list" /\ \A k \in 1..Len(r.v.l) : r.v.l[k].t = "int"
IsNums(r) == r.ok /\ r.v.t = "list" /\ \A k \in 1..Len(r.v.l) : r.v.l[k].t = "num"
C_Violated(s, e) ==
    CASE e.op = "sort" -> Clauses(<<
            <<"returns-indices", IsInts(e.res)>>,
            <<"permutation", ~IsInts(e.res) \/ IsPermutation(Ints(e.res.v), Len(e.xs))>>,
            <<"ascending", ~IsInts(e.res) \/ ~IsPermutation(Ints(e.res.v), Len(e.xs)) \/ OrdersAscending(Ints(e.res.v), e.xs)>>,
            <<"list-unchanged", e.xs2 = e.xs>>>>)
      [] e.op = "line" -> Clauses(<<
            <<"least-squares-line", e.res.ok /\ e.res.v.t = "list" /\ Len(e.res.v.l) = 2 /\ e.res.v.l[1].t = "num" /\ e.res.v.l[2].t = "num"
                /\ LeastSquares(e.xs, e.ys, e.res.v.l[1].f, e.res.v.l[2].f, Eps(9))>>,
            <<"lists-unchanged", e.xs2 = e.xs /\ e.ys2 = e.ys>>>>)
      [] e.op = "part" ->     \* what lies up to the returned position is at most the pivot, the rest at least
            LET n == Len(e.xs)  q == Ints(e.idx)  pivot == e.xs[(e.l + e.r) \div 2 + 1] IN Clauses(<<
            <<"partition-keeps-indices", IsPermutation(q, n) /\ \A k \in 1..n : (k - 1 < e.l \/ k - 1 > e.r) => q[k] = k - 1>>,
            <<"partition-position", IsInt(e.res) /\ e.l - 1 <= e.res.v.i /\ e.res.v.i <= e.r>>,
            <<"partition-around-pivot", ~(IsInt(e.res) /\ IsPermutation(q, n)) \/ \A k \in (e.l + 1)..(e.r + 1) :
                    IF k - 1 <= e.res.v.i THEN FLe(e.xs[q[k] + 1], pivot) ELSE FLe(pivot, e.xs[q[k] + 1])>>,
            <<"list-unchanged", e.xs2 = e.xs>>>>)
      [] e.op = "maxidx" -> Clauses(<<<<"first-maximum", IsInt(e.res) /\ e.res.v.i = FirstMax(e.xs) - 1>>, <<"list-unchanged", e.xs2 = e.xs>>>>)
      [] e.op = "sumsq" -> Clauses(<<<<"sum-of-squares", IsNumber(e.res) /\ FNear(NumOf(e.res), FDot(e.xs, e.xs), Eps(12))>>, <<"list-unchanged", e.xs2 = e.xs>>>>)
      [] e.op = "toreal" -> Clauses(<<<<"conversion", IsNums(e.res) /\ [k \in 1..Len(e.res.v.l) |-> e.res.v.l[k].f] = e.xs>>>>)
      [] e.op = "index" -> Clauses(<<<<"initial-index", IsInts(e.res) /\ Ints(e.res.v) = [k \in 1..e.n |-> k - 1]>>>>)
      [] e.op = "exp" -> Clauses(<<<<"exponential", IsNum(e.res) /\ FClose(e.res.v.f, FExp(e.x), F0, Eps(13))>>>>)
      [] e.op = "sqrt" -> Clauses(<<<<"square-root", IsNum(e.res) /\ FClose(e.res.v.f, FSqrt(e.x), F0, Eps(15))>>>>)
      [] e.op = "dims" -> Clauses(<<<<"list-dimensions", IsInt(e.res) /\ e.res.v.i = e.n>>>>)
      [] e.op = "fixed" -> Clauses(<<<<"fixed-point", e.ok /\ FixedPointOf(e.cs, e.x, e.d)>>>>)
      [] e.op = "all-decimals" -> Clauses(<<<<"all-decimals-restore-the-number", e.ok /\ FClose(e.back, e.x, F0, F0)>>>>)
      [] e.op = "special" -> Clauses(<<<<"special-number", e.res.ok /\ e.res.v.t = "str" /\ e.res.v.s = e.want>>>>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
