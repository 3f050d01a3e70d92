------------------------------ MODULE Factory ------------------------------
(***************************************************************************)
(* Matrix construction.  State: the random matrices handed out so far, each *)
(* with the request it answered; a request determines its matrix.           *)
(***************************************************************************)
EXTENDS Obs

\* the contents a deterministic constructor must deliver
Built(e) ==
    LET r == e.r  c == e.c IN
    CASE e.m \in {"zeros", "zeros_like"} -> MZero(r, c)
      [] e.m = "zeros_sq" -> MZero(r, r)
      [] e.m \in {"eye", "eye_like"} -> MBuild(r, c, LAMBDA i, j : IF i = j THEN F1 ELSE F0)
      [] e.m = "eye_sq" -> MId(r)
      [] e.m \in {"filled", "filled_like"} -> MFill(r, c, e.x)
      [] e.m = "range" -> MBuild(r, c, LAMBDA i, j : FInt(e.start + (i - 1) * c + (j - 1)))
      [] e.m \in {"create_list", "create_array", "from_raw", "create_ints"} -> e.src
      [] e.m = "matrix_2d" -> e.src
      [] e.m = "matrix_1d" -> <<e.src[1]>>            \* a plain vector is a single row
      [] e.m = "matrix_0d" -> <<<<e.src[1][1]>>>>
      [] e.m = "from_row" -> <<e.src[1]>>
      [] e.m = "from_column" -> ColVec(e.src[1])
      [] e.m = "diag" -> MDiag(Col(e.src, 1))
      [] e.m = "spectrum" -> [i \in 1..NC(e.src) |-> <<e.src[1][i], e.src[2][i]>>]

Key(e) == <<e.m, e.r, e.c, e.seed, e.mean, e.std>>
KnownFor(s, e) == {k \in 1..Len(s) : s[k].key = Key(e)}
=============================================================================
