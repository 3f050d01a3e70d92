------------------------------ MODULE Describe ------------------------------
(***************************************************************************)
(* Diagnostics: the debug switch and the printed description.               *)
(* State: the parameters and the model as in Params, the debug switch, the   *)
(* descriptions met so far with what they describe, and the answers met so   *)
(* far with the parameters and the data set they belong to.  Toggling the     *)
(* switch changes nothing but the switch.                                    *)
(***************************************************************************)
EXTENDS Params
PlsClasses == {"SIMPLS", "PLS1", "NIPALS", "OPLS", "KernelPLS", "DIPLS", "SparsePLS", "PRM", "VCPLS", "CCARegression"}
GlsClasses == {"GLSW", "EPO", "YGradientGLSW", "YGradientEPO"}
\* the parameters a description reports
Shown(c) == CASE c \in PlsClasses \ {"PRM"} -> {"num_components", "preprocessing_type"}
              [] c = "PCA" -> {"variance", "max_columns", "center"}
              [] c = "FastICA" -> {"num_components", "whiten", "fun", "max_iter", "tol"}
              [] c = "RBFKernel" -> {"gamma"}
              [] c = "PolyKernel" -> {"gamma", "degree", "coef_0"}
              [] OTHER -> {}
ShowsDebug(c) == c \in (PlsClasses \ {"PRM"}) \cup {"PCA"}
ShowsModel(c) == c \in GlsClasses
Describes(c) == Shown(c) # {} \/ ShowsModel(c)
HasDebug(c) == c \in Algs
DInit(c) == [cls |-> c, vals |-> Defaults(c), model |-> None, dbg |-> FALSE, seen |-> {}, known |-> {}]
\* what a description stands for
Key(s) == [p |-> [n \in Shown(s.cls) |-> s.vals[n]], d |-> ShowsDebug(s.cls) /\ s.dbg, m |-> ShowsModel(s.cls) /\ s.model # None]
\* what the answers depend on
AKey(s) == <<s.vals, s.model>>
DStep(s, a) ==
    CASE a.a = "debug" -> [s EXCEPT !.dbg = (a.v = "on")]
      [] a.a = "look" -> s
      [] OTHER -> LET t == PNext(s.cls, [vals |-> s.vals, model |-> s.model], a) IN [s EXCEPT !.vals = t.vals, !.model = t.model]
Injective(seen) == \A x, y \in seen : (x.k = y.k) <=> (x.t = y.t)
=============================================================================
