------------------------------- MODULE ALife -------------------------------
(***************************************************************************)
(* Life cycle of a trainable algorithm.  Abstract state:                    *)
(*   m      the data set whose model is held (0: no model, -1: some model   *)
(*          that this specification says nothing more about)                *)
(*   p      the parameter variant that is set                               *)
(*   first  the first data set (and 10 x variant) a training call processed *)
(*          (only used for the recorded finding about DIPLS)                *)
(* Actions (field a; d is a data set or variant, k a position):             *)
(*   G  train with good data          F  train, the k-th matrix operation   *)
(*   B  train with unusable data         of the training fails              *)
(*   R  reset                         P  assign parameter variant d         *)
(*   V  assign an invalid value       Q  queries                            *)
(*   X  a query whose k-th matrix operation fails                           *)
(*   W  a query of a wrong width                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

PlsAlgs    == {"SIMPLS", "PLS1", "NIPALS", "OPLS", "KernelPLS", "DIPLS", "SparsePLS", "PRM", "VCPLS", "CCARegression"}
MultiAlgs  == {"NIPALS", "KernelPLS", "CCARegression"}
GlswAlgs   == {"GLSW", "EPO", "YGradientGLSW", "YGradientEPO"}
UnsupAlgs  == {"PCA", "FastICA"}
Algs       == PlsAlgs \cup GlswAlgs \cup UnsupAlgs \cup {"CCAFilter"}
NoInvalid  == {"SIMPLS", "PLS1", "OPLS", "VCPLS"}     \* no parameter with invalid values

Act(a, d, k) == [a |-> a, d |-> d, k |-> k]
\* the ways data can be unusable: x, y missing; c wrong number of response columns; m, l fewer and more response than predictor rows;
\* n, i, v a predictor that is not a number, an infinite one, a response that is not a number;
\* w domains of different width; u a domain of one sample; d no domains; o a base algorithm that refuses
BadKinds(c) == IF c \in UnsupAlgs THEN {"x"}
               ELSE {"n", "i", "v"} \cup
                    IF c = "DIPLS" THEN {"x", "y", "c", "m", "l", "w", "u", "d"}
               ELSE IF c \in MultiAlgs \cup {"YGradientGLSW", "YGradientEPO"} THEN {"x", "y", "m", "l"}
               ELSE IF c = "OPLS" THEN {"x", "y", "c", "m", "l", "o"}
               ELSE {"x", "y", "c", "m", "l"}

AInit == [m |-> 0, p |-> 0, first |-> 0]
\* ok: whether the call returned without raising or reporting an error
ANext(s, a, ok) ==
    CASE a.a = "G" -> [s EXCEPT !.m = IF ok THEN a.d ELSE 0, !.first = IF s.first = 0 THEN a.d + 10 * s.p ELSE s.first]
      [] a.a = "F" -> [s EXCEPT !.m = IF ok THEN -1 ELSE 0]
      [] a.a = "B" -> [s EXCEPT !.m = 0]
      [] a.a = "R" -> [s EXCEPT !.m = 0]
      [] a.a = "P" -> [s EXCEPT !.m = 0, !.p = a.d]
      [] OTHER -> s
Holds(s) == s.m # 0
\* a walk with, at each step, the variant in force, the data set of the model before it and the first data set
RECURSIVE AAnnotate(_, _)
AAnnotate(s, w) ==
    IF w = <<>> THEN <<>>
    ELSE LET a == Head(w)
             n == ANext(s, a, a.a = "G")
         IN <<[a |-> a.a, d |-> a.d, k |-> a.k, p |-> n.p, m |-> s.m, via |-> s.first]>> \o AAnnotate(n, Tail(w))
=============================================================================
