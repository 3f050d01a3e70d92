------------------------------- MODULE C01Gen -------------------------------
EXTENDS Enum, ALife
KindNo == [x |-> 1, y |-> 2, c |-> 3, m |-> 4, l |-> 5, w |-> 6, o |-> 7, u |-> 8, d |-> 9, n |-> 10, i |-> 11, v |-> 12]
Bad(c) == SetToSeq({Act("B", d, KindNo[k]) : k \in BadKinds(c), d \in {1, 2}})
Inv(c) == IF c \in NoInvalid THEN <<>> ELSE <<Act("V", 0, 0), Act("V", 0, 1)>>
\* faults early, in the middle and late in the training (tenths of its operations)
Faults == <<Act("F", 1, 0), Act("F", 2, 5), Act("F", 1, 9)>>
Late == {Act("F", d, k) : d \in {1, 2}, k \in 10..Pick(13, 19)}
Base(c) == <<Act("G", 1, 0), Act("G", 2, 0), Act("R", 0, 0), Act("P", 1, 0)>>
Acts(c) == Base(c) \o <<Act("G", 3, 0), Act("G", 4, 0), Act("G", 5, 0), Act("G", 6, 0), Act("P", 0, 0), Act("P", 2, 0), Act("Q", 0, 0), Act("X", 0, 3), Act("W", 0, 0)>>
           \o Faults \o <<Act("F", 3, 3), Act("F", 2, 7)>> \o Bad(c) \o Inv(c)
Case(c, w) == [cls |-> c, walk |-> AAnnotate(AInit, w)]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Pairs(c) == {Case(c, <<Act("Q", 0, 0), x, y>>) : x, y \in SetOf(Acts(c))}
Mid(c) == LET s == SetOf(Base(c)) \cup {Act("B", 1, IF c \in UnsupAlgs THEN 1 ELSE 2), Act("F", 2, 5)} IN {Case(c, w) : w \in [1..Pick(3, 4) -> s]}
Long(c) == {Case(c, Walk(k, 14, Acts(c))) : k \in 1..Pick(8, 120)}
\* a fault at every single operation of a training (the last position repeats when there are fewer)
Every(c) == {Case(c, <<Act("G", 2, 0), Act("F", 1, 100 + k), Act("G", 2, 0)>>) : k \in 0..Pick(60, 600)}
            \cup {Case(c, <<g, f, h>>) : f \in Late, g \in {Act("G", 1, 0), Act("R", 0, 0), Act("P", 1, 0)}, h \in {Act("G", 2, 0), Act("Q", 0, 0)}}
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>> ELSE SetToSeq(Pairs(Head(cs)) \cup Mid(Head(cs)) \cup Long(Head(cs)) \cup Every(Head(cs))) \o Cat(Tail(cs))
C_Cases == Cat(SetToSeq(Algs))
=============================================================================
