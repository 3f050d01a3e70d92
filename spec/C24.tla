-------------------------------- MODULE C24 --------------------------------
(***************************************************************************)
(* Row independence.  single[i] is the answer for row i alone; rows is the   *)
(* sequence of rows asked for together (any order, with repetitions); row r   *)
(* of the answer must be the answer for row rows[r], whatever the others are. *)
(***************************************************************************)
EXTENDS Obs, Conform
C_InitSt == 0
C_NextSt(s, e) == s
\* FFT turns its output rows against its input rows (recorded finding of C25 and C24)
Turned(e, k, n) == ((k - 1 + (n \div 2)) % n) + 1
Place(e, r) == IF e.cls = "FFT" /\ ~e.probe THEN Turned(e, r, Len(e.rows)) ELSE r
\* the columns the statement can be checked on: SparsePLS deflates with the batch after the first component (recorded finding)
Cols(e, w) == IF e.cls = "SparsePLS" /\ e.f = "transform" /\ ~e.probe THEN 1..1 ELSE 1..w
AllSingle(e) == \A i \in 1..Len(e.single) : IsMat(e.single[i]) /\ e.single[i].v.r = 1
On(u, js) == [j \in js |-> u[j]]
NearRow(u, v, js) == LET t == FMul(Eps(9), FAdd(F1, FMax(VMaxAbs(On(u, js)), VMaxAbs(On(v, js))))) IN \A j \in js : FClose(u[j], v[j], t, F0)
C_Violated(s, e) ==
    CASE e.op = "batch" -> Clauses(<<
            <<"answers-single-rows", e.err \/ AllSingle(e)>>,
            <<"one-output-row-per-input-row", e.err \/ (IsMat(e.res) /\ e.res.v.r = Len(e.rows))>>,
            <<"same-width-as-alone", (AllSingle(e) /\ IsMat(e.res)) => \A r \in 1..Len(e.rows) : e.res.v.c = e.single[e.rows[r]].v.c>>,
            <<"row-as-if-alone", (AllSingle(e) /\ IsMat(e.res) /\ e.res.v.r = Len(e.rows)) =>
                 \A r \in 1..Len(e.rows) : LET w == e.single[e.rows[r]].v IN
                     e.res.v.c = w.c /\ NearRow(e.res.v.d[Place(e, r)], w.d[1], Cols(e, w.c))>>,
            <<"same-failure-as-alone", e.err => ~e.res.ok>> >>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
