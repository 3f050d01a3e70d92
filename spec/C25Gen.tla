------------------------------- MODULE C25Gen -------------------------------
EXTENDS Enum
Modes == {"real", "imag", "pairs", "ampl", "angle", "amplangle"}
F == {[op |-> "fft", mode |-> m, ortho |-> o, asint |-> b, r |-> r, c |-> c, kind |-> k, rep |-> rep]
        : m \in Modes, o \in BOOLEAN, b \in BOOLEAN, r \in {1, 2, 3, 5, 30, 140}, c \in Pick({1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 64, 101, 260}, 1..20 \cup {31, 32, 64, 65}), k \in {"generic", "zero", "const", "offset", "spectra", "ramp", "huge", "tiny", "micro12", "grades"},
          rep \in 1..Pick(1, 2)}
P == {[op |-> "probe", mode |-> "real", ortho |-> FALSE, asint |-> FALSE, r |-> 3, c |-> 5, kind |-> "generic", rep |-> 1]}
Affordable(c) == (c.r # 140 \/ (c.c \in {1, 8, 31} /\ c.kind \in {"generic", "offset"})) /\ (c.c # 260 \/ (c.r \in {1, 3} /\ c.kind \in {"generic", "spectra"}))
C_Cases == SetToSeq({c \in F : Affordable(c)} \cup P)
=============================================================================
