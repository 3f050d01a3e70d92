-------------------------------- MODULE Enum --------------------------------
(***************************************************************************)
(* Case generation: TLC enumerates the sequence of abstract cases of a      *)
(* specification (one state per case) and writes them for the driver.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT Cases
VARIABLE genPos

Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Pick(quick, thorough) == IF Thorough THEN thorough ELSE quick

Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
\* pseudo-random walks: k-th of a family of sequences of length len over 1..m, determined by VERIF_SEED
Lcg(x) == (x * 1103 + 12345) % 65521
RECURSIVE RndFrom(_, _, _)
RndFrom(x, len, m) == IF len = 0 THEN <<>> ELSE LET y == Lcg(x) IN <<1 + ((y \div 7) % m)>> \o RndFrom(y, len - 1, m)
RndSeq(k, len, m) == RndFrom(Lcg(Lcg((k * 7919 + Seed * 104) % 65521)), len, m)
\* the walk itself, over a sequence of actions
Walk(k, len, acts) == LET r == RndSeq(k, len, Len(acts)) IN [i \in 1..len |-> acts[r[i]]]

GenInit == LET c == Cases IN genPos = Len(c) /\ ndJsonSerialize(IOEnv.CASES, c)
GenNext == genPos > 0 /\ genPos' = genPos - 1
GenSpec == GenInit /\ [][GenNext]_genPos
=============================================================================
