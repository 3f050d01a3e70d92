-------------------------------- MODULE C10 --------------------------------
\* Trace specification of the filters.  State: the filters of the object under test, in order.
EXTENDS Filters, Conform

Fresh(f) == [f |-> f.f, a |-> f.a, b |-> f.b, m |-> <<>>]

C_InitSt == [fs |-> <<>>, ord |-> <<>>]
C_NextSt(s, e) ==
    CASE e.op = "new" -> [fs |-> [k \in 1..Len(e.filters) |-> Fresh(e.filters[k])], ord |-> e.order]
      [] e.op = "set" -> [s EXCEPT !.fs[e.k].a = e.a, !.fs[e.k].b = e.b]
      [] e.op = "transform" -> [s EXCEPT !.fs = ApplyChain(s.fs, s.ord, e.x, 1).fs]
      [] OTHER -> s

C_Violated(s, e) ==
    CASE e.op = "transform" ->
            LET want == ApplyChain(s.fs, s.ord, e.x, 1).out
                eqs == Len(s.ord) = 1 /\ s.fs[1].f = "eq"
                n == NC(e.x)
            IN Clauses(<<
                 <<"returns-a-matrix", IsMat(e.res)>>,
                 <<"shape", ~IsMat(e.res) \/ (e.res.v.r = NR(e.x) /\ e.res.v.c = NC(want))>>,
                 <<"columns-selected-and-interpolated", ~IsMat(e.res) \/ NC(e.res.v.d) # NC(want) \/ MNear(e.res.v.d, want, Eps(12))>>,
                 <<"downsampling-exact", ~(IsMat(e.res) /\ Len(s.ord) = 1 /\ s.fs[1].f = "ds") \/ e.res.v.d = want>>,
                 <<"ends-unchanged", ~(IsMat(e.res) /\ eqs) \/ e.res.v.c # s.fs[1].a \/
                        (Col(e.res.v.d, 1) = Col(e.x, 1) /\ (n = 1 \/ Col(e.res.v.d, s.fs[1].a) = Col(e.x, n)))>>>>)
      [] e.op \in {"new", "set"} -> Clauses(<<<<"accepted", e.res.ok>>>>)
      [] OTHER -> {"unexpected-event"}
=============================================================================
