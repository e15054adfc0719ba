------------------------------- MODULE Bytes -------------------------------
(* Byte level facts of the SCALE encoding.                                 *)
(*                                                                         *)
(* An input is a sequence of bytes (0..255); a position is 0-based, a view *)
(* is the half open range p..e-1 of an input.  Integers are kept as a sign *)
(* and a magnitude, the magnitude being little endian bytes without        *)
(* trailing zeroes, because TLC's own integers have 32 bits only.          *)
EXTENDS Integers, Sequences

Big == 1073741824          \* 2^30: lengths are clipped to this

At(I, p) == I[p + 1]

RECURSIVE TrimTo(_, _)
TrimTo(bs, n) == IF n = 0 THEN <<>>
                 ELSE IF bs[n] # 0 THEN SubSeq(bs, 1, n)
                 ELSE TrimTo(bs, n - 1)
Trim(bs) == TrimTo(bs, Len(bs))

View(I, p, e) == SubSeq(I, p + 1, e)

\* unsigned little endian number of n bytes at p
ULE(I, p, n) == Trim(View(I, p, p + n))

\* two's complement negation of a byte string: 256^n - x  (x # 0)
RECURSIVE NegFrom(_, _, _)
NegFrom(bs, i, carry) ==
    IF i > Len(bs) THEN <<>>
    ELSE LET s == (255 - bs[i]) + carry
         IN  <<s % 256>> \o NegFrom(bs, i + 1, s \div 256)
Neg(bs) == NegFrom(bs, 1, 1)

\* a number is <<sign, magnitude>>
Unsigned(I, p, n) == <<"+", ULE(I, p, n)>>
Signed(I, p, n) ==
    LET bs == View(I, p, p + n)
    IN  IF bs[n] >= 128 THEN <<"-", Trim(Neg(bs))>> ELSE <<"+", Trim(bs)>>

\* magnitude to a small integer, clipped at Big
RECURSIVE MagFrom(_, _)
MagFrom(m, i) == IF i = 0 THEN 0 ELSE (m[i] * (256 ^ (i - 1))) + MagFrom(m, i - 1)
ToInt(m) == IF Len(m) > 4 \/ (Len(m) = 4 /\ m[4] >= 64) THEN Big ELSE MagFrom(m, Len(m))

\* a non-negative integer below 2^31 as a magnitude
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o OfInt(n \div 256)

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==   \* lexicographic order on byte strings, from index i
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LexLess(a, b, i + 1)
RECURSIVE LessTop(_, _, _)
LessTop(a, b, i) == IF i = 0 THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i]
                    ELSE LessTop(a, b, i - 1)
MagLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessTop(a, b, Len(a))
NumLess(x, y) ==
    IF x[1] # y[1] THEN x[1] = "-"
    ELSE IF x[1] = "+" THEN MagLess(x[2], y[2]) ELSE MagLess(y[2], x[2])

\* does a number fit in an integer type of w bytes?
FitsU(n, w) == n[1] = "+" /\ Len(n[2]) <= w
FitsI(n, w) ==
    LET m == n[2] IN
    IF Len(m) < w THEN TRUE
    ELSE IF Len(m) > w THEN FALSE
    ELSE IF n[1] = "+" THEN m[w] < 128
    ELSE m[w] < 128 \/ (m[w] = 128 /\ \A i \in 1..(w - 1) : m[i] = 0)

\* magnitude + small integer
RECURSIVE AddSmall(_, _)
AddSmall(m, k) ==
    IF k = 0 THEN m
    ELSE IF m = <<>> THEN OfInt(k)
    ELSE LET s == m[1] + k IN <<s % 256>> \o AddSmall(Tail(m), s \div 256)

\* <<quotient (full width, top first), remainder>> of big endian digits by k
RECURSIVE DivBE(_, _, _, _)
DivBE(be, i, rem, k) ==
    IF i > Len(be) THEN <<<<>>, rem>>
    ELSE LET cur == rem * 256 + be[i]
             r   == DivBE(be, i + 1, cur % k, k)
         IN  <<<<cur \div k>> \o r[1], r[2]>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
DivSmall(m, k) == LET r == DivBE(Rev(m), 1, 0, k) IN <<Trim(Rev(r[1])), r[2]>>

----------------------------------------------------------------------------
(* Compact integers.  The result is <<TRUE, magnitude, next position>> or  *)
(* <<FALSE, <<>>, 0>>: too short, not the minimal encoding, or more than w *)
(* bytes wide.                                                             *)
BadCompact == <<FALSE, <<>>, 0>>

\* divide a little endian byte string by four (drop the two mode bits)
Quarter(bs) == Trim([i \in 1..Len(bs) |->
    (bs[i] \div 4) + (IF i < Len(bs) THEN (bs[i + 1] % 4) * 64 ELSE 0)])

Compact(I, p, e, w) ==
    IF p >= e THEN BadCompact
    ELSE LET b    == At(I, p)
             mode == b % 4
         IN  CASE mode = 0 -> <<TRUE, OfInt(b \div 4), p + 1>>
               [] mode = 1 ->
                    IF p + 2 > e THEN BadCompact
                    ELSE LET m == Quarter(View(I, p, p + 2))
                         IN  IF ToInt(m) > 63 /\ Len(m) <= w THEN <<TRUE, m, p + 2>> ELSE BadCompact
               [] mode = 2 ->
                    IF p + 4 > e THEN BadCompact
                    ELSE LET m == Quarter(View(I, p, p + 4))
                         IN  IF ToInt(m) > 16383 /\ Len(m) <= w THEN <<TRUE, m, p + 4>> ELSE BadCompact
               [] OTHER ->
                    LET n == (b \div 4) + 4
                    IN  IF p + 1 + n > e THEN BadCompact
                        ELSE LET m == ULE(I, p + 1, n)
                             IN  IF Len(m) = n /\ n <= w /\ (n = 4 => m[4] >= 64)
                                 THEN <<TRUE, m, p + 1 + n>> ELSE BadCompact

----------------------------------------------------------------------------
(* chars and UTF-8                                                         *)
ScalarOk(m) ==      \* magnitude of a u32: is it a Unicode scalar value?
    Len(m) <= 3 /\ LET n == MagFrom(m, Len(m)) IN n <= 1114111 /\ ~(n >= 55296 /\ n <= 57343)

Cont(I, p, e) == p < e /\ At(I, p) >= 128 /\ At(I, p) <= 191

Max2(a, b) == IF a > b THEN a ELSE b
\* the length of the well formed UTF-8 scalar at p, or 0
Utf8Len(I, p, e) ==
    LET b == At(I, p) IN
    IF b < 128 THEN 1
    ELSE IF b >= 194 /\ b <= 223 THEN (IF Cont(I, p + 1, e) THEN 2 ELSE 0)
    ELSE IF b >= 224 /\ b <= 239 THEN
         (IF Cont(I, p + 1, e) /\ Cont(I, p + 2, e)
             /\ (b = 224 => At(I, p + 1) >= 160) /\ (b = 237 => At(I, p + 1) <= 159) THEN 3 ELSE 0)
    ELSE IF b >= 240 /\ b <= 244 THEN
         (IF Cont(I, p + 1, e) /\ Cont(I, p + 2, e) /\ Cont(I, p + 3, e)
             /\ (b = 240 => At(I, p + 1) >= 144) /\ (b = 244 => At(I, p + 1) <= 143) THEN 4 ELSE 0)
    ELSE 0

\* Text is well formed if each of its bytes begins a scalar, or continues one that
\* begins at most three bytes before.  (Without recursion, so that long texts are cheap.)
Continues(I, p, e, i) ==
    I[i + 1] \in 128..191 /\ \E j \in Max2(p, i - 3)..(i - 1) : j + Utf8Len(I, j, e) > i
Utf8(I, p, e) ==
    \A i \in p..(e - 1) : I[i + 1] < 128 \/ Utf8Len(I, i, e) > 0 \/ Continues(I, p, e, i)

----------------------------------------------------------------------------
(* bit sequences: n bits in units of w bytes                               *)
BitBytes(n, w) == LET u == (n + 8 * w - 1) \div (8 * w) IN u * w

\* bit i (0-based) of the sequence whose first unit starts at p
BitAt(I, p, w, msb, i) ==
    LET unit  == i \div (8 * w)
        j     == i % (8 * w)
        k     == IF msb THEN 8 * w - 1 - j ELSE j   \* numeric bit of the unit
        byte  == At(I, p + unit * w + (k \div 8))
    IN  (byte \div (2 ^ (k % 8))) % 2
Bits(I, p, w, msb, n) == [i \in 1..n |-> BitAt(I, p, w, msb, i - 1)]
=============================================================================
