------------------------------- MODULE TLife -------------------------------
(***************************************************************************)
(* Life cycle of a transformation.  Abstract state: which data set it is    *)
(* configured with (0: none) and which parameter variant is set.            *)
(* Actions: T (transform), I (inverse transform), C (configure), R (reset), *)
(* P (assign parameters of variant n).  Data set Unusable is one that the   *)
(* transformation refuses (an error): it changes nothing.  Row normalisation is never          *)
(* configured: every matrix is its own configuration.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
TInit == [cfg |-> 0, par |-> 0]
Unusable == 9
Refused(a) == a.a \in {"T", "I", "C"} /\ a.d = Unusable
TNext(own, s, a) ==
    CASE Refused(a) -> s
      [] a.a \in {"T", "I"} -> IF own \/ s.cfg # 0 THEN s ELSE [s EXCEPT !.cfg = a.d]
      [] a.a = "C" -> IF own THEN s ELSE [s EXCEPT !.cfg = a.d]
      [] a.a = "R" -> [s EXCEPT !.cfg = 0]
      [] a.a = "P" -> [cfg |-> 0, par |-> a.d]
      [] OTHER -> s
\* the configuration with which a request is answered
Answers(own, s, a) == [cfg |-> IF own \/ s.cfg = 0 THEN a.d ELSE s.cfg, par |-> s.par]
\* a walk with the expected configuration at each step
RECURSIVE Annotate(_, _, _)
Annotate(own, s, w) ==
    IF w = <<>> THEN <<>>
    ELSE LET a == Head(w)
             q == Answers(own, s, a)
         IN <<[a |-> a.a, d |-> a.d, cfg |-> IF a.a \in {"T", "I"} THEN q.cfg ELSE 0, par |-> q.par]>>
            \o Annotate(own, TNext(own, s, a), Tail(w))
=============================================================================
