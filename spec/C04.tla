-------------------------------- MODULE C04 --------------------------------
(***************************************************************************)
(* Isolation: no request changes a matrix it is given, matrices given and    *)
(* received may be overwritten afterwards, and an object answers as if it     *)
(* were the only one of its class (alone: the answer of an object that is     *)
(* the only one, is asked only this and whose matrices nobody touches).       *)
(* Operations of Matrix and its helpers (mop): apart from the documented      *)
(* mutators they change no operand, and result and operands are independent.  *)
(***************************************************************************)
EXTENDS QLife, Conform
Mutators == {"set", "set_row", "set_column", "add_by_vector_modify", "sub_by_vector_modify", "mul_by_vector_modify", "div_by_vector_modify",
             "vector_op_modify", "helper.fill_diagonal"}
C_InitSt == QInit
C_NextSt(s, e) == QNext(s, e)
Untouched(b, a) == Len(b) = Len(a) /\ \A i \in 1..Len(b) : b[i] = a[i]
C_Violated(s, e) ==
    CASE e.op \in {"new", "tinker"} -> {}
      \* what was handed over and what was received are matrices of their own (PassThrough hands back what it is given)
      [] e.op = "mutate" -> Clauses(<< <<"other-matrices-unchanged", e.cls = "PassThrough" \/ Untouched(e.before, e.after)>> >>)
      [] e.op = "train" -> Clauses(<< <<"training-data-unchanged", Untouched(e.before, e.after)>>,
                                      <<"outcome", (e.how \in {0, 1}) => e.res.ok>> >>)
      [] e.op = "ask" -> Clauses(<< <<"query-unchanged", Untouched(e.before, e.after)>>,
                                    <<"same-answer-as-before", SameAsBefore(s, e)>>,
                                    <<"same-answer-as-alone", SameVal(e.res, e.alone)>> >>)
      [] e.op = "mop" -> Clauses(<< <<"operands-unchanged", e.name \notin Mutators => Untouched(e.before, e.after)>>,
                                    <<"only-the-receiver-changes", e.name \in Mutators => Untouched(Tail(e.before), Tail(e.after))>>,
                                    <<"operands-do-not-follow-the-result", Untouched(e.after, e.after2)>>,
                                    <<"result-does-not-follow-the-operands", e.res2 = e.res.v>>,
                                    <<"same-answer-again", e.name \notin Mutators => SameVal(e.res, e.again)>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
