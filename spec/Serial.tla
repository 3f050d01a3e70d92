------------------------------- MODULE Serial -------------------------------
(***************************************************************************)
(* Binary layout of serialised state.  Everything is little endian.         *)
(***************************************************************************)
EXTENDS Obs
\* a signed 32-bit word as 4 bytes
Word32(w) == LET b0 == w % 256
                 r1 == (w - b0) \div 256
                 b1 == r1 % 256
                 r2 == (r1 - b1) \div 256
                 b2 == r2 % 256
                 r3 == (r2 - b2) \div 256
             IN <<b0, b1, b2, r3 % 256>>
IntBytes(n)  == Word32(n)
RealBytes(x) == Word32(x[2]) \o Word32(x[1])          \* a number is <<high word, low word>>
Utf8(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
             [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8All(_)
Utf8All(cs) == IF cs = <<>> THEN <<>> ELSE Utf8(Head(cs)) \o Utf8All(Tail(cs))
StrBytes(cs) == LET b == Utf8All(cs) IN IntBytes(Len(b)) \o b
RECURSIVE RealsBytes(_)
RealsBytes(v) == IF v = <<>> THEN <<>> ELSE RealBytes(Head(v)) \o RealsBytes(Tail(v))
MatBytes(r, c, A) == IntBytes(r) \o IntBytes(c) \o RealsBytes(Flat(A))
\* two's complement of any width, sign-extended to w bytes
Extend(b, w) == [k \in 1..w |-> IF k <= Len(b) THEN b[k] ELSE IF b # <<>> /\ b[Len(b)] >= 128 THEN 255 ELSE 0]
=============================================================================
