------------------------------- MODULE Types --------------------------------
(* Type descriptions and the extent of encoded values.                     *)
(*                                                                         *)
(* A registry is a sequence of definitions; type id t is entry t+1.  Names *)
(* are numbers (an index into a sorted table of names), 0 is "no name".    *)
(*   [k |-> "prim", p |-> "u8"]         [k |-> "compact", t |-> id]        *)
(*   [k |-> "seq", t |-> id]            [k |-> "arr", t |-> id, n |-> len] *)
(*   [k |-> "tup", ts |-> <<ids>>]                                         *)
(*   [k |-> "comp", fs |-> <<<<name, id>>, ...>>, path |-> <<names>>]      *)
(*   [k |-> "var", vs |-> <<[n |-> name, i |-> index, fs |-> ...], ...>>]  *)
(*   [k |-> "bits", w |-> unit bytes, msb |-> BOOLEAN]                     *)
(*   [k |-> "err"]   the resolver fails for this id                        *)
EXTENDS Bytes, FiniteSets

Missing == [k |-> "missing"]
Def(reg, t) == IF t >= 0 /\ t < Len(reg) THEN reg[t + 1] ELSE Missing

Unit(ids) == [i \in 1..Len(ids) |-> <<0, ids[i]>>]     \* unnamed fields

Width(p) == CASE p \in {"u8", "i8", "bool"} -> 1
              [] p \in {"u16", "i16"} -> 2
              [] p \in {"u32", "i32", "char"} -> 4
              [] p \in {"u64", "i64"} -> 8
              [] p \in {"u128", "i128"} -> 16
              [] p \in {"u256", "i256"} -> 32
              [] OTHER -> 0
UInts == {"u8", "u16", "u32", "u64", "u128"}
SInts == {"i8", "i16", "i32", "i64", "i128"}
Ints  == UInts \cup SInts

\* the ways in which an encoding can be wrong, as (negative) results of Sk
EInput == -1  EResolve == -3  ECompact == -4
\* no type with this id
EMissing(t) == -1000000000 - t
\* where the particulars are in the input, the result says at which position
EChar(p) == -1000 - 2 * p
EVariant(p) == -1001 - 2 * p

ErrClass(x) == CASE x = EInput -> "input"     [] x <= -1000000000 -> "notfound"
                 [] x = EResolve -> "resolve" [] x = ECompact -> "compact"
                 [] OTHER -> IF x % 2 = 0 THEN "char" ELSE "novariant"
\* what is not a char, or the index there is no variant for
ErrArgs(I, x) == IF x > -1000 THEN <<>>
                 ELSE IF x <= -1000000000 THEN <<-1000000000 - x>>
                 ELSE LET p == (-1000 - x) \div 2 IN IF x % 2 = 0 THEN ULE(I, p, 4) ELSE <<At(I, p)>>

HasVariant(d, ix) == \E j \in 1..Len(d.vs) : d.vs[j].i = ix
\* the first variant with that index
VariantOf(d, ix) ==
    d.vs[CHOOSE j \in 1..Len(d.vs) :
            d.vs[j].i = ix /\ \A k \in 1..(j - 1) : d.vs[k].i # ix]

\* fixed width primitives which any bytes are an encoding of
Plain(p) == p \in Ints \cup {"u256", "i256"}

(***************************************************************************)
(* Sk(reg, I, t, p, c, e): the position after the value of type t which    *)
(* starts at p (compact encoded if c), looking no further than e; or one   *)
(* of the error codes above.  This is also what skipping a value requires: *)
(* text need not be valid, only complete.                                  *)
(***************************************************************************)
RECURSIVE Sk(_, _, _, _, _, _), SkFs(_, _, _, _, _, _, _), SkN(_, _, _, _, _, _)

SkPrim(I, pr, p, c, e) ==
    IF c THEN (IF pr \in UInts
               THEN LET r == Compact(I, p, e, Width(pr)) IN IF r[1] THEN r[3] ELSE EInput
               ELSE ECompact)
    ELSE IF pr = "str" THEN
         LET r == Compact(I, p, e, 4) IN
         IF ~r[1] THEN EInput
         ELSE LET n == ToInt(r[2]) IN IF n > e - r[3] THEN EInput ELSE r[3] + n
    ELSE LET q == p + Width(pr) IN
         IF q > e THEN EInput
         ELSE IF pr = "bool" /\ At(I, p) > 1 THEN EInput
         ELSE IF pr = "char" /\ ~ScalarOk(ULE(I, p, 4)) THEN EChar(p)
         ELSE q

\* the fields fs, from the i-th on
SkFs(reg, I, fs, i, p, c, e) ==
    IF i > Len(fs) THEN p
    ELSE LET q == Sk(reg, I, fs[i][2], p, c, e)
         IN  IF q < 0 THEN q ELSE SkFs(reg, I, fs, i + 1, q, c, e)

\* n items of type t; items without any bytes are all there at once
SkN(reg, I, t, n, p, e) ==
    IF n = 0 THEN p
    ELSE LET d == Def(reg, t) IN
         IF d.k = "prim" /\ Plain(d.p)
         THEN (IF n > (e - p) \div Width(d.p) THEN EInput ELSE p + n * Width(d.p))
         ELSE LET q == Sk(reg, I, t, p, FALSE, e)
              IN  IF q < 0 THEN q ELSE IF q = p THEN p ELSE SkN(reg, I, t, n - 1, q, e)

Sk(reg, I, t, p, c, e) ==
    LET d == Def(reg, t) IN
    CASE d.k = "missing" -> EMissing(t)
      [] d.k = "err" -> EResolve
      [] d.k = "prim" -> SkPrim(I, d.p, p, c, e)
      [] d.k = "compact" -> Sk(reg, I, d.t, p, TRUE, e)
      [] d.k = "comp" -> IF c /\ Len(d.fs) # 1 THEN ECompact ELSE SkFs(reg, I, d.fs, 1, p, c, e)
      [] d.k = "tup" -> IF c /\ Len(d.ts) # 1 THEN ECompact ELSE SkFs(reg, I, Unit(d.ts), 1, p, c, e)
      [] c -> ECompact
      [] d.k = "var" ->
            IF p >= e THEN EInput
            ELSE IF ~HasVariant(d, At(I, p)) THEN EVariant(p)
            ELSE SkFs(reg, I, VariantOf(d, At(I, p)).fs, 1, p + 1, FALSE, e)
      [] d.k = "seq" ->
            LET r == Compact(I, p, e, 8)
            IN  IF ~r[1] THEN EInput ELSE SkN(reg, I, d.t, ToInt(r[2]), r[3], e)
      [] d.k = "arr" -> SkN(reg, I, d.t, d.n, p, e)
      [] d.k = "bits" ->
            LET r == Compact(I, p, e, 4) IN
            IF ~r[1] THEN EInput
            ELSE LET n == ToInt(r[2]) IN
                 IF (n \div 8) > e - r[3] THEN EInput
                 ELSE LET q == r[3] + BitBytes(n, d.w) IN IF q > e THEN EInput ELSE q

\* the positions of the items in a list of fields: <<p, p1, ..., pn>>, ending
\* early with an error code
RECURSIVE Cuts(_, _, _, _, _, _, _)
Cuts(reg, I, fs, i, p, c, e) ==
    IF i > Len(fs) THEN <<p>>
    ELSE LET q == Sk(reg, I, fs[i][2], p, c, e)
         IN  IF q < 0 THEN <<p, q>> ELSE <<p>> \o Cuts(reg, I, fs, i + 1, q, c, e)

\* how often an item is looked at when skipping n items (bounds the work)
RECURSIVE WorkN(_, _, _, _, _, _)
WorkN(reg, I, t, n, p, e) ==
    IF n = 0 THEN 0
    ELSE LET q == Sk(reg, I, t, p, FALSE, e)
         IN  IF q < 0 \/ q = p THEN 1 ELSE 1 + WorkN(reg, I, t, n - 1, q, e)
=============================================================================
