------------------------------- MODULE C02Gen -------------------------------
EXTENDS Enum, ALife
KindNo == [x |-> 1, y |-> 2, c |-> 3, m |-> 4, l |-> 5, w |-> 6, o |-> 7, n |-> 10, i |-> 11, v |-> 12]
\* a training of DIPLS that fails on the way may or may not have set the centres
BadAllowed(c) == IF c = "DIPLS" THEN {"x", "y", "c", "w"} ELSE BadKinds(c)
Bad(c) == SetToSeq({Act("B", d, KindNo[k]) : k \in BadAllowed(c), d \in {1, 3}})
Inv(c) == IF c \in NoInvalid THEN <<>> ELSE <<Act("V", 0, 0)>>
FaultActs(c) == IF c = "DIPLS" THEN <<>> ELSE <<Act("F", 1, 0), Act("F", 2, 5), Act("F", 3, 9), Act("F", 4, 7), Act("F", 2, 3)>>
Base == <<Act("G", 1, 0), Act("G", 2, 0), Act("G", 3, 0), Act("G", 4, 0), Act("G", 5, 0), Act("G", 6, 0), Act("R", 0, 0), Act("P", 1, 0), Act("P", 2, 0), Act("P", 0, 0)>>
Acts(c) == Base \o <<Act("Q", 0, 0), Act("X", 0, 3), Act("W", 0, 0)>> \o FaultActs(c) \o Bad(c) \o Inv(c)
Case(c, w) == [cls |-> c, probe |-> FALSE, walk |-> AAnnotate(AInit, w)]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Pairs(c) == {Case(c, <<x, Act("G", d, 0)>>) : x \in SetOf(Acts(c)), d \in 1..6}
\* a training, something, a training
Trios(c) == {Case(c, <<Act("G", d, 0), x, Act("G", f, 0)>>) : x \in SetOf(Acts(c)), d \in 1..6, f \in Pick({1, 3}, 1..6)}
Long(c) == {Case(c, Walk(k, 12, Acts(c)) \o <<Act("G", 1 + (k % 4), 0)>>) : k \in 1..Pick(6, 150)}
\* a fault at every single operation of a training, then a good one
Every(c) == IF c = "DIPLS" THEN {} ELSE {Case(c, <<Act("F", 1, k), Act("G", d, 0)>>) : k \in (100..(100 + Pick(40, 600))) \cup (10..Pick(13, 19)), d \in {2}}
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>> ELSE SetToSeq(Pairs(Head(cs)) \cup Trios(Head(cs)) \cup Long(Head(cs)) \cup Every(Head(cs))) \o Cat(Tail(cs))
Pr == <<[cls |-> "DIPLS", probe |-> TRUE, walk |-> AAnnotate(AInit, <<Act("G", 1, 0), Act("G", 2, 0)>>)]>>
C_Cases == Pr \o Cat(SetToSeq(Algs))
=============================================================================
