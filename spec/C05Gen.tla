------------------------------- MODULE C05Gen -------------------------------
EXTENDS Enum, Params
Set(n, v) == [a |-> "set", n |-> n, v |-> v, d |-> 0]
Tr(d) == [a |-> "train", n |-> "", v |-> "", d |-> d]
Ini == [a |-> "init", n |-> "", v |-> "", d |-> 0]
RECURSIVE Ann(_, _, _)
Ann(c, s, w) ==
    IF w = <<>> THEN <<>>
    ELSE LET x == Head(w)
             t == PNext(c, s, IF x.a = "set" THEN [a |-> "set", n |-> x.n, v |-> x.v] ELSE IF x.a = "train" THEN [a |-> "train", d |-> x.d] ELSE [a |-> "init"])
         IN <<[a |-> x.a, n |-> x.n, v |-> x.v, d |-> x.d, vals |-> t.vals, model |-> t.model]>> \o Ann(c, t, Tail(w))
Case(c, w) == [kind |-> "walk", cls |-> c, w |-> w, defs |-> Defaults(c)]
Effect(c, n, v) == [kind |-> "effect", cls |-> c, w |-> <<[n |-> n, v |-> v]>>, defs |-> Defaults(c)]
D2(c) == IF c = "DIPLS" THEN 1 ELSE 2
T(c, d) == IF c \in PlainP THEN <<>> ELSE <<Tr(d)>>
\* DIPLS keeps the centres of its first training (recorded finding), so it is not trained again after its preprocessing has changed
Again(c, n, d) == IF c = "DIPLS" /\ n = "preprocessing_type" THEN <<>> ELSE T(c, d)
Bads(c, n) == SetOf(Par(c, n).bad) \cup (IF n \in DOMAIN Ignored(c) THEN Ignored(c)[n] ELSE {})
Extra(c) == DOMAIN Ignored(c) \ Names(c)
\* too slow to train with: the limit is exercised without training
Slow(c, n) == IF c = "FastICA" /\ n = "tol" THEN {"f:0.0", "i:0", "f:1e-12"} ELSE {}
Cheap(c, n) == SetOf(Par(c, n).ok) \ Slow(c, n)
One(c, n) ==
    {Case(c, <<Set(n, v)>>) : v \in Slow(c, n)} \cup
    {Case(c, <<Set(n, v)>> \o T(c, 1)) : v \in Cheap(c, n)}
    \cup {Case(c, T(c, 1) \o <<Set(n, v)>> \o Again(c, n, D2(c))) : v \in Cheap(c, n)}
    \cup {Case(c, <<Set(n, v)>> \o T(c, 1) \o <<Set(n, v)>> \o T(c, 1)) : v \in Cheap(c, n)}
    \cup {Case(c, <<Set(n, v), Set(n, u)>> \o T(c, 1)) : v, u \in Cheap(c, n)}
    \cup {Case(c, <<Set(n, b)>> \o T(c, 1) \o <<Set(n, b)>>) : b \in Bads(c, n)}
    \cup {Case(c, <<Set(n, v)>> \o T(c, 1) \o <<Set(n, b)>> \o T(c, D2(c))) : v \in Cheap(c, n), b \in Bads(c, n)}
    \cup {Effect(c, n, v) : v \in Par(c, n).eff}
    \cup (IF c \in Algs THEN {Case(c, <<Set(n, v)>> \o T(c, 1) \o <<Ini>> \o Again(c, n, 1)) : v \in Cheap(c, n)} ELSE {})
Two(c) == IF c = "DIPLS" THEN {} ELSE {Case(c, <<Set(m, v)>> \o T(c, 1) \o <<Set(n, u)>> \o T(c, D2(c))) :
              m \in Names(c), n \in Names(c), v \in UNION {SetOf(Par(c, k).ok) : k \in Names(c)}, u \in UNION {SetOf(Par(c, k).ok) \cup Bads(c, k) : k \in Names(c)}}
TwoOk(c) == {x \in Two(c) : LET f == x.w[1]  g == CHOOSE y \in SetOf(x.w) : y.a = "set" /\ \A z \in SetOf(Tail(x.w)) : z.a = "set" => y = z
                            IN Valid(c, f.n, f.v) /\ f.n # g.n /\ (g.v \in SetOf(Par(c, g.n).ok) \/ g.v \in Bads(c, g.n))}
Steps(c) == LET RECURSIVE G(_)
                G(q) == IF q = <<>> THEN <<>>
                        ELSE LET p == Head(q) IN [i \in 1..Cardinality(Cheap(c, p.n)) |-> Set(p.n, SetToSeq(Cheap(c, p.n))[i])] \o [i \in 1..Len(p.bad) |-> Set(p.n, p.bad[i])] \o G(Tail(q))
            IN G(IF c = "DIPLS" THEN SelectSeq(Params(c), LAMBDA p : p.n # "preprocessing_type") ELSE Params(c)) \o T(c, 1) \o T(c, 1) \o T(c, 1) \o T(c, D2(c)) \o T(c, D2(c))
Wander(c) == {Case(c, Walk(k, 10, Steps(c))) : k \in 1..Pick(6, 200)}
Odd(c) == {Case(c, T(c, 1) \o <<Set(n, v)>>) : n \in Extra(c), v \in UNION {Ignored(c)[m] : m \in Extra(c)}}
Of(c) == {Case(c, <<>>)} \cup UNION {One(c, n) : n \in Names(c)} \cup Wander(c) \cup Odd(c) \cup (IF Thorough THEN TwoOk(c) ELSE {})
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>> ELSE SetToSeq(Of(Head(cs))) \o Cat(Tail(cs))
Annotated(x) == IF x.kind = "walk" THEN [x EXCEPT !.w = Ann(x.cls, PInit(x.cls), x.w)] ELSE x
C_Cases == LET q == Cat(SetToSeq(ParamClasses)) IN [i \in 1..Len(q) |-> Annotated(q[i])]
=============================================================================
