------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The parameters of every class: documented default, valid and invalid      *)
(* values (boundary values included), and which of the valid values change   *)
(* the answers compared with the default on the data used here.              *)
(* Values are written as "type:value".                                       *)
(* State: vals (parameter -> value), model (the data set and the values the   *)
(* model was trained with, or none).                                         *)
(***************************************************************************)
EXTENDS ALife, Sequences, FiniteSets, TLC
P(n, def, ok, eff, bad) == [n |-> n, def |-> def, ok |-> ok, eff |-> eff, bad |-> bad, keeps |-> FALSE]
\* a parameter the configuration does not depend on: nothing is discarded
K(n, def, ok, eff, bad) == [P(n, def, ok, eff, bad) EXCEPT !.keeps = TRUE]
Comps == P("num_components", "i:5", <<"i:1", "i:2", "i:4">>, {"i:1", "i:2"}, <<>>)
PreProc(eff) == P("preprocessing_type", "e:NONE", <<"e:CENTER", "e:STANDARDIZE", "e:NONE">>, eff, <<>>)
Both == {"e:CENTER", "e:STANDARDIZE"}
Iter(def, eff) == P("max_iter", def, <<"i:0", "i:1", "i:200">>, eff, <<"i:-1", "i:-500">>)
TolP(def, eff) == P("tol", def, <<"f:0.0", "i:0", "f:0.5", "f:1e-12">>, eff, <<"f:-1e-300", "i:-1", "f:-0.5">>)
BTrue == <<"b:True", "b:False">>
RSQ == <<"t:10.0,90.0", "t:25.0,75.0", "t:0.001,99.999", "t:40.0,41.0">>
RSBad == <<"t:0.0,75.0", "t:25.0,100.0", "t:75.0,25.0", "t:25.0,25.0", "t:-1.0,50.0", "t:50.0,100.5">>
SGs == << P("polynomial_order", "i:2", <<"i:2", "i:3", "i:4">>, {"i:3", "i:4"}, <<"i:1", "i:0", "i:-1">>),
          P("derivative_order", "i:1", <<"i:0", "i:1", "i:2">>, {"i:0", "i:2"}, <<"i:-1", "i:-5">>) >>
FunVals == <<"o:Cube", "o:Exponential", "o:LogCosH">>
Params(c) ==
    CASE c = "SIMPLS" -> <<Comps, PreProc(Both), P("num_coefficients", "i:0", <<"i:1", "i:2", "i:0">>, {"i:1", "i:2"}, <<>>)>>
      [] c = "PLS1" -> <<Comps, PreProc(Both)>>
      [] c = "NIPALS" -> <<Comps, PreProc({}), TolP("f:1e-06", {"f:0.5"}), Iter("i:500", {}), P("norm_Y_weights", "b:False", BTrue, {}, <<>>),
                           P("deflation_mode", "e:REGRESSION", <<"e:CANONICAL", "e:REGRESSION">>, {"e:CANONICAL"}, <<>>)>>
      [] c = "CCARegression" -> <<Comps, PreProc({}), TolP("f:1e-06", {}), Iter("i:500", {}), P("norm_Y_weights", "b:False", BTrue, {}, <<>>)>>
      [] c = "KernelPLS" -> <<Comps, PreProc({"e:STANDARDIZE"}), P("kernel", "o:RBFKernel", <<"o:LinearKernel", "o:PolyKernel", "o:RBFKernel">>, {"o:LinearKernel", "o:PolyKernel"}, <<>>),
                              TolP("f:1e-06", {"f:0.5"}), Iter("i:500", {"i:1"})>>
      [] c = "DIPLS" -> <<Comps, PreProc({"e:STANDARDIZE"}), P("lambda_", "f:1.0", <<"f:1e-08", "f:-1e-08", "f:0.1", "f:-2.0", "i:3">>, {"f:0.1", "f:-2.0"}, <<"f:0.0", "i:0", "f:9.9e-09", "f:-9.9e-09">>)>>
      [] c = "SparsePLS" -> <<Comps, PreProc({}), P("lambda_", "f:0.5", <<"f:0.0", "f:0.1", "f:0.9", "i:0">>, {"f:0.1", "f:0.9"}, <<"f:-1e-09", "i:-1">>),
                              TolP("f:1e-07", {}), Iter("i:500", {})>>
      [] c = "PRM" -> <<Comps, PreProc({}), P("C", "f:4.0", <<"f:1e-10", "f:1.0", "f:-3.0", "i:8">>, {"f:1.0"}, <<"f:0.0", "i:0", "f:9e-11", "f:-9e-11">>),
                        TolP("f:1e-06", {"f:0.5"}), Iter("i:500", {"i:1"}), P("num_SIMPLS_coefficients", "i:-1", <<"i:1", "i:3", "i:-1">>, {"i:1"}, <<>>)>>
      [] c = "VCPLS" -> <<Comps, PreProc(Both), P("lambda_", "f:1.0", <<"f:0.0", "f:0.1", "f:4.0">>, {"f:0.1", "f:4.0"}, <<>>)>>
      [] c = "OPLS" -> <<Comps, PreProc(Both), P("base_PLS", "o:PLS1", <<"o:SIMPLS", "o:PLS1", "o:SparsePLS">>, {"o:SparsePLS"}, <<>>)>>
      [] c = "CCAFilter" -> <<P("kcca", "i:1", <<"i:1", "i:2">>, {"i:2"}, <<"i:0", "i:-1">>), P("lambda_X", "f:0.01", <<"f:1.0", "f:0.5">>, {"f:1.0", "f:0.5"}, <<>>),
                              P("lambda_Y", "f:0.01", <<"f:1.0", "f:0.5">>, {"f:1.0", "f:0.5"}, <<>>)>>
      [] c \in {"GLSW", "YGradientGLSW"} -> <<P("alpha", "f:0.001", <<"f:1e-300", "f:1.0", "i:50">>, {"f:1.0", "i:50"}, <<"f:0.0", "i:0", "f:-1e-300", "i:-1">>)>>
      [] c \in {"EPO", "YGradientEPO"} -> <<P("alpha", "f:0.001", <<"f:1e-300", "f:1.0">>, {}, <<"f:0.0", "i:0", "i:-1">>),
                                            P("N", "i:5", <<"i:1", "i:2", "i:30">>, {"i:1", "i:2"}, <<"i:0", "i:-1">>)>>
      [] c = "PCA" -> <<P("variance", "f:0.95", <<"f:1e-12", "f:0.5", "f:0.999999999999">>, {"f:1e-12", "f:0.5"}, <<"f:0.0", "f:1.0", "i:0", "i:1", "f:-0.1", "f:1.5">>),
                        P("max_columns", "i:-1", <<"i:1", "i:3", "i:-1">>, {"i:1"}, <<"i:0", "i:-2", "i:-500">>), P("center", "b:False", BTrue, {"b:True"}, <<>>)>>
      [] c = "FastICA" -> <<P("num_components", "i:5", <<"i:1", "i:3", "i:9">>, {"i:1", "i:3"}, <<"i:0", "i:-1">>), P("whiten", "b:True", BTrue, {"b:False"}, <<>>),
                            P("fun", "o:LogCosH", FunVals, {"o:Cube", "o:Exponential"}, <<>>), Iter("i:500", {"i:0", "i:1"}), TolP("f:0.0001", {"f:0.5"}),
                            P("algorithm", "e:DEFLATION", <<"e:PARALLEL", "e:DEFLATION">>, {"e:PARALLEL"}, <<>>)>>
      [] c = "RobustScaler" -> <<P("with_centering", "b:True", <<"b:False", "b:True">>, {"b:False"}, <<>>), P("with_scaling", "b:True", <<"b:False", "b:True">>, {"b:False"}, <<>>),
                                 P("quantile_range", "t:25.0,75.0", RSQ, {"t:10.0,90.0", "t:40.0,41.0"}, RSBad)>>
      [] c = "PowerTransformer" -> <<P("method", "s:yeo-johnson", <<"s:box-cox", "s:yeo-johnson">>, {"s:box-cox"}, <<"s:", "s:boxcox", "s:Box-Cox", "n">>),
                                     P("standardise", "b:True", <<"b:False", "b:True">>, {"b:False"}, <<>>)>>
      [] c = "QuantileTransformer" -> <<P("n_quantiles", "i:1000", <<"i:2", "i:3">>, {"i:2", "i:3"}, <<>>),
                                        P("output_distribution", "s:uniform", <<"s:normal", "s:uniform">>, {"s:normal"}, <<"s:gauss", "s:", "n">>),
                                        P("ignore_implicit_zeroes", "b:False", <<"b:False">>, {}, <<>>), P("subsample", "i:100000", <<"i:50000">>, {}, <<>>),
                                        P("random_state", "n", <<"i:1", "n">>, {}, <<>>)>>
      [] c = "Log" -> <<P("base", "f:2.718281828459045", <<"f:10.0", "i:2", "f:0.5", "f:1e-300">>, {"f:10.0", "i:2", "f:0.5"}, <<"f:1.0", "i:1", "f:0.0", "i:0", "f:-1e-300", "i:-2">>),
                        K("offset", "f:1.0", <<"f:0.0", "f:2.5", "i:3">>, {"f:0.0", "f:2.5", "i:3"}, <<>>)>>
      [] c = "SavitzkyGolay" -> SGs \o <<P("num_points_left", "i:3", <<"i:0", "i:2", "i:4">>, {"i:0", "i:2", "i:4"}, <<"i:-1", "i:-3">>),
                                         P("num_points_right", "i:3", <<"i:0", "i:2", "i:4">>, {"i:0", "i:2", "i:4"}, <<"i:-1", "i:-3">>)>>
      [] c = "SavitzkyGolay2" -> SGs \o <<P("num_points", "i:3", <<"i:2", "i:4">>, {"i:2", "i:4"}, <<"i:-1", "i:-3">>)>>
      [] c = "FFT" -> <<K("orthonormalisation", "b:False", BTrue, {"b:True"}, <<>>),
                        K("output_mode", "e:AMPLITUDE_ONLY", <<"e:REAL_COMPONENT_ONLY", "e:IMAG_COMPONENT_ONLY", "e:REAL_AND_IMAG_PAIRS", "e:PHASE_ANGLE_ONLY", "e:AMPL_ANGLE_PAIRS">>,
                          {"e:REAL_COMPONENT_ONLY", "e:IMAG_COMPONENT_ONLY", "e:REAL_AND_IMAG_PAIRS", "e:PHASE_ANGLE_ONLY", "e:AMPL_ANGLE_PAIRS"}, <<"i:0", "i:5", "i:13">>)>>
      [] c = "Downsample" -> <<K("start_index", "i:0", <<"i:1", "i:3">>, {"i:1", "i:3"}, <<>>), K("step", "i:1", <<"i:2", "i:5">>, {"i:2", "i:5"}, <<>>)>>
      [] c = "Equidistance" -> <<K("num_samples", "i:6", <<"i:2", "i:3", "i:20">>, {"i:2", "i:3", "i:20"}, <<"i:1", "i:0", "i:-4">>)>>
      [] c = "RBFKernel" -> <<K("gamma", "f:1.0", <<"f:0.3", "f:0.0", "f:0.0001", "f:0.0002", "f:nan">>, {"f:0.3", "f:0.0", "f:nan"}, <<>>)>>
      [] c = "PolyKernel" -> <<K("degree", "i:3", <<"i:1", "i:2">>, {"i:1", "i:2"}, <<>>), K("coef_0", "f:0.0", <<"f:1.0", "f:-0.5", "f:-0.50001">>, {"f:1.0", "f:-0.5"}, <<>>),
                               K("gamma", "f:nan", <<"f:0.3", "f:2.0", "f:1e-05", "f:2e-05">>, {"f:0.3", "f:2.0"}, <<>>)>>
      [] c = "LogCosH" -> <<K("alpha", "f:1.0", <<"f:1.5", "f:2.0">>, {"f:1.5", "f:2.0"}, <<>>)>>
\* values that are silently not taken: the stored value stays
Ignored(c) == IF c = "PolyKernel" THEN [degree |-> {"i:0", "i:-1"}] ELSE IF c = "CCARegression" THEN [deflation_mode |-> {"e:REGRESSION"}] ELSE <<>>
TransfP == {"RobustScaler", "PowerTransformer", "QuantileTransformer", "Log", "SavitzkyGolay", "SavitzkyGolay2", "FFT"}
PlainP == {"Downsample", "Equidistance", "RBFKernel", "PolyKernel", "LogCosH"}
ParamClasses == Algs \cup TransfP \cup PlainP
Names(c) == {Params(c)[i].n : i \in 1..Len(Params(c))}
Par(c, n) == LET q == Params(c) IN q[CHOOSE i \in 1..Len(q) : q[i].n = n]
Defaults(c) == [n \in Names(c) |-> Par(c, n).def]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Valid(c, n, v) == n \in Names(c) /\ v \in SetOf(Par(c, n).ok)
None == "none"
PInit(c) == [vals |-> Defaults(c), model |-> None]
\* actions: [a |-> "set", n, v]  [a |-> "train", d]  [a |-> "init"] (the member initialiser)
PNext(c, s, a) ==
    CASE a.a = "set" -> IF Valid(c, a.n, a.v) THEN [vals |-> [s.vals EXCEPT ![a.n] = a.v], model |-> IF Par(c, a.n).keeps THEN s.model ELSE None] ELSE s
      [] a.a = "train" -> [s EXCEPT !.model = ToString(a.d)]
      [] a.a = "init" -> PInit(c)
      [] OTHER -> s
=============================================================================
