-------------------------------- MODULE C03 --------------------------------
(* Queries do not change the model: the same question has the same answer, whatever was asked in between. *)
EXTENDS QLife, Conform
C_InitSt == QInit
C_NextSt(s, e) == QNext(s, e)
C_Violated(s, e) ==
    CASE e.op = "train" -> Clauses(<< <<"trained", e.res.ok /\ e.res.v.t # "str">> >>)
      [] e.op = "ask" -> Clauses(<< <<"same-answer-as-before", SameAsBefore(s, e)>>,
                                    <<"same-answer-as-when-asked-first", SameVal(e.res, e.first)>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
