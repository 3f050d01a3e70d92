------------------------------- MODULE C23Gen -------------------------------
EXTENDS Enum, ALife
Pres == {"none", "center", "standardize"}
Kinds == <<"plain", "offset", "scales", "constant", "constants", "bigY", "intX", "centred", "smallY", "smallX">>
Sizes == <<<<12, 5>>, <<6, 3>>, <<30, 8>>, <<7, 2>>, <<70, 3>>, <<9, 12>>>>
Big == <<<<300, 2>>, <<3, 40>>>>
Responses(c) == IF c \in {"NIPALS", "KernelPLS"} THEN {1, 2, 3} ELSE IF c = "CCARegression" THEN {1, 2} ELSE {1}
Modes(c) == IF c = "DIPLS" THEN {"unsupervised", "supervised", "semisupervised"} ELSE {""}
Case(c, p, pre, kd, sz, q, m, h, r) == [cls |-> c, p |-> p, pre |-> pre, kind |-> kd, sz |-> sz, q |-> q, mode |-> m, prev |-> h, rep |-> r, m |-> 3]
Fresh(c) == {Case(c, p, pre, Kinds[k], Sizes[z], q, m, "", r) : p \in 0..2, pre \in Pres, k \in 1..Len(Kinds), z \in 1..Pick(2, Len(Sizes)),
                q \in Responses(c), m \in Modes(c), r \in 1..Pick(1, 3)}
Wide(c) == {Case(c, 0, pre, Kinds[k], Sizes[z], q, m, "", 1) : pre \in Pres, k \in 1..3, z \in 4..6, q \in Responses(c), m \in Modes(c)}
           \cup {Case(c, p, pre, "plain", <<30, 8>>, q, m, "", 1) : p \in 0..2, pre \in Pres, q \in Responses(c), m \in Modes(c)}
           \cup (IF Thorough THEN {Case(c, p, pre, Kinds[k], Big[z], q, m, "", 1) : p \in {0, 2}, pre \in Pres, k \in {1, 2, 4}, z \in 1..2, q \in Responses(c), m \in Modes(c)} ELSE {})
\* the object has been trained before, on other data and with another preprocessing
Again(c) == IF c = "DIPLS" THEN {}
            ELSE {Case(c, p, pre, Kinds[k], <<12, 5>>, q, "", h, 1) : p \in Pick({0}, 0..2), pre, h \in Pres, k \in {1, 2, 4}, q \in Responses(c)}
\* a single new row
Single(c) == {[Case(c, p, pre, Kinds[k], Sizes[1], q, m, "", 1) EXCEPT !.m = 1] : p \in Pick({0}, 0..2), pre \in Pres, k \in {1, 2, 6}, q \in Responses(c), m \in Modes(c)}
Large(c) == {Case(c, p, pre, "plain", Big[1], q, m, "", 1) : p \in {0, 2}, pre \in Pres, q \in Responses(c), m \in Modes(c)}
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>> ELSE SetToSeq(Fresh(Head(cs)) \cup Wide(Head(cs)) \cup Again(Head(cs)) \cup Single(Head(cs)) \cup Large(Head(cs))) \o Cat(Tail(cs))
\* left out: what is all rounding noise.  OPLS on one effective column has nothing left once the orthogonal part is removed,
\* DIPLS on three rows has one row per domain and no variation in it
Meaningful(c) == ~(c.cls = "OPLS" /\ c.sz[2] = 2 /\ c.kind \in {"constant", "constants"} /\ c.pre # "none")
                 /\ ~(c.cls = "DIPLS" /\ c.sz[1] = 3)
                 \* thresholds and penalties in the units of the response
                 /\ ~(c.kind = "smallY" /\ c.pre # "standardize" /\ c.cls \notin {"SIMPLS", "PLS1", "OPLS"})
C_Cases == SelectSeq(Cat(SetToSeq(PlsAlgs)), Meaningful)
=============================================================================
