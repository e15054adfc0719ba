------------------------------- MODULE Encode -------------------------------
(* The other direction: the encoding of what a reader of everything (the   *)
(* target "any") was shown.  Enc(reg, t, c, v, i) encodes the tokens of v  *)
(* from the i-th on as a value of type t, and gives <<bytes, next i>>.     *)
EXTENDS Targets

Pad(m, w) == [i \in 1..w |-> IF i <= Len(m) THEN m[i] ELSE 0]
EncInt(n, w) == IF n[1] = "-" THEN Neg(Pad(n[2], w)) ELSE Pad(n[2], w)

\* times four, plus the mode
RECURSIVE Times4(_, _, _)
Times4(bs, i, carry) ==
    IF i > Len(bs) THEN <<>>
    ELSE LET x == bs[i] * 4 + carry IN <<x % 256>> \o Times4(bs, i + 1, x \div 256)
EncCompact(m) ==
    LET n == ToInt(m) IN
    IF n < 64 THEN <<n * 4>>
    ELSE IF n < 16384 THEN Times4(Pad(m, 2), 1, 1)
    ELSE IF Len(m) < 4 \/ (Len(m) = 4 /\ m[4] < 64) THEN Times4(Pad(m, 4), 1, 2)
    ELSE <<(Len(m) - 4) * 4 + 3>> \o m

\* bits into units of w bytes
EncBits(bits, w, msb) ==
    [b \in 1..BitBytes(Len(bits), w) |->
        LET unit == (b - 1) \div w
            byte == (b - 1) % w
            bit(j) == LET k == 8 * byte + j                  \* numeric bit of the unit
                          i == unit * 8 * w + (IF msb THEN 8 * w - 1 - k ELSE k)
                      IN  IF i < Len(bits) THEN bits[i + 1] * (2 ^ j) ELSE 0
        IN  bit(0) + bit(1) + bit(2) + bit(3) + bit(4) + bit(5) + bit(6) + bit(7)]

RECURSIVE Enc(_, _, _, _, _), EncFs(_, _, _, _, _, _), EncN(_, _, _, _, _)
EncFs(reg, fs, k, c, v, i) ==
    IF k > Len(fs) THEN <<<<>>, i>>
    ELSE LET a == Enc(reg, fs[k][2], c, v, i)
             b == EncFs(reg, fs, k + 1, c, v, a[2])
         IN  <<a[1] \o b[1], b[2]>>
EncN(reg, t, n, v, i) ==
    IF n = 0 THEN <<<<>>, i>>
    ELSE LET a == Enc(reg, t, FALSE, v, i)
             b == EncN(reg, t, n - 1, v, a[2])
         IN  <<a[1] \o b[1], b[2]>>
Enc(reg, t, c, v, i) ==
    LET d == Def(reg, t) IN
    CASE d.k = "prim" ->
            (IF d.p = "bool" THEN <<v[i][2], i + 1>>
             ELSE IF d.p = "char" THEN <<Pad(v[i][2], 4), i + 1>>
             ELSE IF d.p = "str" THEN <<EncCompact(OfInt(Len(v[i][2]))) \o v[i][2], i + 1>>
             ELSE IF c THEN <<EncCompact(v[i + 1][2]), i + 2>>
             ELSE <<EncInt(v[i + 1], Width(d.p)), i + 2>>)
      [] d.k = "compact" -> Enc(reg, d.t, TRUE, v, i)
      [] d.k = "comp" -> EncFs(reg, d.fs, 1, c, v, i + 1)
      [] d.k = "tup" -> EncFs(reg, Unit(d.ts), 1, c, v, i + 1)
      [] d.k = "var" ->
            LET ix == v[i][2][2]
                r  == EncFs(reg, VariantOf(d, ix).fs, 1, FALSE, v, i + 1)
            IN  <<<<ix>> \o r[1], r[2]>>
      [] d.k = "seq" ->
            LET n == v[i][2][1]
                r == EncN(reg, d.t, n, v, i + 1)
            IN  <<EncCompact(OfInt(n)) \o r[1], r[2]>>
      [] d.k = "arr" -> EncN(reg, d.t, d.n, v, i + 1)
      [] d.k = "bits" -> <<EncCompact(OfInt(Len(v[i][2]))) \o EncBits(v[i][2], d.w, d.msb), i + 1>>
=============================================================================
