------------------------------- MODULE C22Gen -------------------------------
\* Every short list exhaustively (order and ties decide how a sort branches), longer ones by pattern.
EXTENDS Enum
Vals(n) == IF n <= Pick(5, 6) THEN 0..2 ELSE 0..1
Short == UNION {{[op |-> "sort", xs |-> x] : x \in [1..n -> Vals(n)]} : n \in 0..Pick(8, 10)}
Perms == UNION {{[op |-> "sort", xs |-> x] : x \in {p \in [1..n -> 1..n] : {p[k] : k \in 1..n} = 1..n}} : n \in 4..Pick(5, 7)}
MaxS == UNION {{[op |-> "maxidx", xs |-> x] : x \in [1..n -> -2..1]} : n \in 1..Pick(4, 5)}
Pats == {"sorted", "reverse", "random", "ties", "twovals", "pipe", "valley", "const", "rotated", "float", "inf", "nearsorted", "blocks", "huge", "pyfloat", "pyint", "negzero"}
Lens == (6..70) \cup {100, 255, 256, 500}
Long == {[op |-> "sortp", pat |-> p, n |-> k, rep |-> q] : p \in Pats, k \in Pick({6, 7, 8, 9, 10, 11, 12, 13, 17, 20, 31, 32, 33, 50, 64, 100, 300, 1100}, Lens), q \in 1..Pick(2, 5)}
\* orders on which quicksort with the median of three splits off two elements at a time, natural orders of many elements
Worst == {[op |-> "sortp", pat |-> "killer", n |-> k, rep |-> q] : k \in {50, 300, 2400}, q \in 1..2}
         \cup {[op |-> "sortp", pat |-> p, n |-> 5000, rep |-> 1] : p \in {"sorted", "reverse", "random", "pipe", "twovals", "const"}}
MaxP == {[op |-> "maxp", pat |-> p, n |-> k, rep |-> 1] : p \in Pats, k \in {1, 2, 3, 9, 40}}
Line == {[op |-> "line", pat |-> p, n |-> k, rep |-> q] : p \in {"random", "float", "exact", "negative", "ties2", "int", "nparray"}, k \in {2, 3, 4, 10, 57, 200}, q \in 1..Pick(3, 20)}
Misc == {[op |-> m, pat |-> p, n |-> k, rep |-> 1] : m \in {"sumsq", "toreal", "index"}, p \in {"random", "float", "huge", "pyint", "const"}, k \in {0, 1, 2, 9, 60}}
Fun == {[op |-> m, pat |-> "float", n |-> k, rep |-> 1] : m \in {"exp", "sqrt"}, k \in 1..20}
Dim == {[op |-> "dims", n |-> k] : k \in 1..4}
Fix == {[op |-> "fixed", d |-> d, v |-> v] : d \in 0..Pick(8, 12), v \in 1..Pick(30, 90)}
All == {[op |-> "all-decimals", d |-> -1, v |-> v] : v \in 1..Pick(30, 90)}
Spec == {[op |-> "special", which |-> w, d |-> d] : w \in {"nan", "pinf", "ninf"}, d \in {-1, 0, 3}}
Part == UNION {{[op |-> "part", xs |-> x, l |-> 0, r |-> n - 1] : x \in [1..n -> 0..3]} : n \in 1..Pick(4, 6)}
        \cup {[op |-> "partp", pat |-> p, n |-> n, l |-> l, r |-> n - 1 - l] : p \in {"sorted", "reverse", "random", "ties", "twovals", "const"}, n \in {7, 12, 30}, l \in {0, 2}}
C_Cases == SetToSeq(Part) \o  SetToSeq(Short \cup Perms \cup MaxS) \o SetToSeq(Long) \o SetToSeq(Worst) \o SetToSeq(MaxP) \o SetToSeq(Line) \o SetToSeq(Misc) \o SetToSeq(Fun) \o SetToSeq(Dim) \o SetToSeq(Fix) \o SetToSeq(All) \o SetToSeq(Spec)
=============================================================================
