------------------------------- MODULE C03Gen -------------------------------
EXTENDS QCases
Case(c, p, d, w) == [cls |-> c, p |-> p, d |-> d, w |-> w]
Twice(c) == {Case(c, p, 1, <<x, y, x, y>>) : p \in Pick({0}, 0..2), x, y \in SetOf(Q(c))}
Vars(c) == {Case(c, p, d, <<x, x>>) : p \in 0..2, d \in (IF c = "MultiplicativeScatterCorrection" THEN {1, 2} ELSE 1..6), x \in SetOf(Q(c))}
Long(c) == {Case(c, k % 3, 1 + (k % 2), Walk(k, 16, Q(c))) : k \in 1..Pick(4, 100)}
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>> ELSE SetToSeq(Twice(Head(cs)) \cup Vars(Head(cs)) \cup Long(Head(cs))) \o Cat(Tail(cs))
C_Cases == Cat(SetToSeq(All))
=============================================================================
