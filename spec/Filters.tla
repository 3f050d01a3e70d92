------------------------------ MODULE Filters ------------------------------
(***************************************************************************)
(* Resampling filters and filter chains.                                    *)
(*                                                                          *)
(* State of a chain: the sequence of its filters, each a record             *)
(* [f |-> kind, a |-> first parameter, b |-> second parameter, m |-> means] *)
(* where m is the configuration of a centering filter (<<>> before the      *)
(* first matrix).  Transitions: set a parameter, replace the list, push a   *)
(* matrix through.                                                          *)
(***************************************************************************)
EXTENDS Obs

\* 1-based indices of the columns start, start+step, ... (0-based) of n columns
DownsampleIdx(n, start, step) ==
    IF start >= n THEN <<>>
    ELSE [k \in 1..(((n - start - 1) \div step) + 1) |-> start + (k - 1) * step + 1]

Downsampled(A, start, step) == MCols(A, DownsampleIdx(NC(A), start, step))

\* k equally spaced positions 0 = p_1 < ... < p_k = n-1 (p_j = (n-1)(j-1)/(k-1)), linear interpolation
Resampled(A, k) ==
    LET n == NC(A)
        At(i, j) == LET x == (n - 1) * (j - 1)
                        q == x \div (k - 1)
                        r == x % (k - 1)
                        t == FRat(r, k - 1)
                    IN IF r = 0 THEN A[i][q + 1]
                       ELSE FAdd(FMul(FSub(F1, t), A[i][q + 1]), FMul(t, A[i][q + 2]))
    IN MBuild(NR(A), k, At)

\* one filter applied to a matrix: the output and the filter afterwards
ApplyFilter(f, A) ==
    CASE f.f = "ds"  -> [out |-> Downsampled(A, f.a, f.b), f |-> f]
      [] f.f = "eq"  -> [out |-> Resampled(A, f.a), f |-> f]
      [] f.f = "cen" -> LET m == IF f.m = <<>> THEN ColMeans(A) ELSE f.m
                        IN [out |-> SubRowVec(A, m), f |-> [f EXCEPT !.m = m]]
      [] f.f = "id"  -> [out |-> A, f |-> f]

\* A chain is an order in which filter objects are applied: fs holds the objects, ord their indices (an object may
\* occur several times and then carries its configuration from one place to the next).
RECURSIVE ApplyChain(_, _, _, _)
ApplyChain(fs, ord, A, k) ==      \* places k.. of the chain applied to A
    IF k > Len(ord) THEN [out |-> A, fs |-> fs]
    ELSE LET r == Force(ApplyFilter(fs[ord[k]], A))
         IN ApplyChain([fs EXCEPT ![ord[k]] = r.f], ord, r.out, k + 1)
=============================================================================
