------------------------------- MODULE C09Gen -------------------------------
EXTENDS Enum
Wn == Pick({0, 1, 2, 3, 4, 6, 11}, {0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 16, 20})
Po == Pick(2..5, 2..6)
Weights == {[op |-> "weights", cls |-> "SavitzkyGolay", l |-> l, r |-> r, p |-> p, d |-> d] : l \in Wn, r \in Wn, p \in Po, d \in 0..6}
W2 == {[op |-> "weights", cls |-> "SavitzkyGolay2", l |-> l, r |-> l, p |-> p, d |-> d] : l \in Wn, p \in Po, d \in 0..6}
Fit(c) == c.d <= c.p /\ (c.l + c.r + 1 > c.p \/ c.l + c.r = 0)
Smooth == {[op |-> "smooth", cls |-> c, l |-> l, r |-> r, p |-> p, d |-> d, rows |-> n, extra |-> x, kind |-> k]
             : c \in {"SavitzkyGolay"}, l \in {0, 1, 3}, r \in {0, 2, 3}, p \in {2, 3}, d \in {0, 1, 2}, n \in {1, 4}, x \in {-1, 0, 1, 5}, k \in {"generic", "offset", "micro12", "grades"}}
          \cup {[op |-> "smooth", cls |-> "SavitzkyGolay2", l |-> l, r |-> l, p |-> p, d |-> d, rows |-> n, extra |-> x, kind |-> k]
             : l \in {0, 1, 2, 5}, p \in {2, 3}, d \in {0, 1, 2}, n \in {1, 4}, x \in {-1, 0, 1, 5}, k \in {"generic", "offset"}}
Grad == {[op |-> "gradient", rows |-> n, cols |-> m, kind |-> k] : n \in {1, 2, 3, 4, 5, 6, 7, 12, 40}, m \in {1, 3}, k \in {"generic", "offset", "int", "huge", "ramp", "micro12", "specks"}}
Ref == {[op |-> "refused", cls |-> c, l |-> 3, r |-> 3, p |-> 2, d |-> d] : c \in {"SavitzkyGolay", "SavitzkyGolay2"}, d \in {3, 5}}
Broad == {[op |-> "smooth", cls |-> c, l |-> 2, r |-> 2, p |-> 2, d |-> d, rows |-> n, extra |-> x, kind |-> k]
             : c \in {"SavitzkyGolay", "SavitzkyGolay2"}, d \in {0, 1}, n \in {1, 3, 140}, x \in {100, 160, 300, 700}, k \in {"generic", "offset"}}
Tall == {[op |-> "gradient", rows |-> n, cols |-> m, kind |-> k] : n \in {130, 300, 1100}, m \in {1, 2}, k \in {"generic", "ramp"}} \cup {[op |-> "gradient", rows |-> 5, cols |-> 300, kind |-> "generic"]}
Far == {[op |-> "weights", cls |-> "SavitzkyGolay", l |-> w[1], r |-> w[2], p |-> p, d |-> d] : w \in {<<15, 15>>, <<26, 26>>, <<0, 30>>, <<30, 2>>, <<12, 17>>}, p \in 2..3, d \in 0..2}
       \cup {[op |-> "weights", cls |-> "SavitzkyGolay", l |-> w[1], r |-> w[2], p |-> w[3], d |-> d] : w \in {<<45, 45, 6>>, <<60, 60, 6>>, <<38, 38, 6>>, <<250, 250, 4>>, <<200, 200, 4>>, <<0, 100, 5>>, <<100, 100, 5>>, <<90, 3, 5>>} \cup Pick({}, {<<1500, 1500, 3>>}), d \in 0..3}
       \cup {[op |-> "smooth", cls |-> "SavitzkyGolay", l |-> w[1], r |-> w[2], p |-> 2, d |-> d, rows |-> 3, extra |-> x, kind |-> "generic"] : w \in {<<15, 15>>, <<0, 30>>, <<30, 2>>}, d \in 0..1, x \in {0, 1, 40}}
       \cup {[op |-> "smooth", cls |-> "SavitzkyGolay2", l |-> 15, r |-> 15, p |-> 2, d |-> d, rows |-> 3, extra |-> x, kind |-> "generic"] : d \in 0..1, x \in {0, 1, 40}}
C_Cases == SetToSeq(Far) \o SetToSeq({c \in Weights : Fit(c)}) \o SetToSeq({c \in W2 : Fit(c)}) \o SetToSeq({c \in Smooth : Fit(c)}) \o SetToSeq({c \in Broad : c.rows = 1 \/ c.extra < 300}) \o SetToSeq(Tall) \o SetToSeq(Grad) \o SetToSeq(Ref)
=============================================================================
