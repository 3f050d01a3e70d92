------------------------------- MODULE C29Gen -------------------------------
EXTENDS Enum, Describe
Set(n, v) == [a |-> "set", n |-> n, v |-> v, d |-> 0]
Tr(d) == [a |-> "train", n |-> "", v |-> "", d |-> d]
Dbg(v) == [a |-> "debug", n |-> "", v |-> v, d |-> 0]
Look == [a |-> "look", n |-> "", v |-> "", d |-> 0]
RECURSIVE Ann(_, _)
Ann(s, w) == IF w = <<>> THEN <<>>
             ELSE LET x == Head(w)  t == DStep(s, x)
                  IN <<[a |-> x.a, n |-> x.n, v |-> x.v, d |-> x.d, vals |-> t.vals, model |-> t.model, dbg |-> t.dbg]>> \o Ann(t, Tail(w))
Case(c, w) == [cls |-> c, w |-> Ann(DInit(c), w), defs |-> Defaults(c)]
\* too slow to train with, or written like another value
Skip(c, n) == (IF c = "FastICA" /\ n = "tol" THEN {"f:0.0", "i:0", "f:1e-12"} ELSE {})
              \cup (IF c = "DIPLS" /\ n = "preprocessing_type" THEN {"e:CENTER", "e:STANDARDIZE"} ELSE {})
Sets(c) == UNION {{Set(n, v) : v \in SetOf(Par(c, n).ok) \ Skip(c, n)} : n \in Names(c)}
Shows(c) == {x \in Sets(c) : x.n \in Shown(c)}
Bads(c) == UNION {{Set(n, v) : v \in {Par(c, n).bad[i] : i \in 1..(IF Par(c, n).bad = <<>> THEN 0 ELSE 1)}} : n \in Names(c)}
Trains(c) == IF c \in PlainP THEN {} ELSE IF c = "DIPLS" THEN {Tr(1)} ELSE {Tr(1), Tr(2)}
Dbgs(c) == IF HasDebug(c) THEN {Dbg("on"), Dbg("off")} ELSE {}
\* one after the other
Pairs(c) == {Case(c, <<x, y>>) : x, y \in Shows(c) \cup Dbgs(c)} \cup {Case(c, <<x, y, x>>) : x \in Shows(c), y \in Bads(c)}
\* trained, switched, retrained
Around(c) == IF c \in PlainP THEN {} ELSE
    {Case(c, <<Tr(1), Dbg("on"), Look, Tr(1), Dbg("off"), Tr(1)>>), Case(c, <<Dbg("on"), Tr(1), Look, Dbg("off"), Tr(1)>>)}
    \cup {Case(c, <<x, Dbg("on"), Tr(1), Dbg("off"), Look, Tr(1)>>) : x \in Sets(c)}
    \cup {Case(c, <<x, Tr(1), Dbg("on"), Tr(1)>>) : x \in Sets(c)}
All(c) == SetToSeq(Sets(c)) \o SetToSeq(Shows(c)) \o SetToSeq(Bads(c)) \o SetToSeq(Trains(c)) \o SetToSeq(Trains(c)) \o SetToSeq(Dbgs(c)) \o SetToSeq(Dbgs(c)) \o <<Look>>
Wander(c) == {Case(c, Walk(k, 9, All(c))) : k \in 1..Pick(6, 120)}
Of(c) == Pairs(c) \cup Around(c) \cup Wander(c)
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>> ELSE SetToSeq(Of(Head(cs))) \o Cat(Tail(cs))
C_Cases == Cat(SetToSeq(Algs \cup {"RBFKernel", "PolyKernel"}))
=============================================================================
