------------------------------ MODULE Targets -------------------------------
(* What decoding into a target gives: a value or a failure.                *)
(*                                                                         *)
(* A target is described by an entry of the table Tgts (children are       *)
(* indices into it, so that targets can be recursive):                     *)
(*   num(p, nz) bool char str bits phantom        the leaves               *)
(*   wrap(t)          Box, Rc, Arc, Cow, Compact, VisitorWithCrateError    *)
(*   dur(t) range(t)  via the pair they are made of                        *)
(*   list(t)          Vec, VecDeque, LinkedList                            *)
(*   set(t) heap(t) arr(n, t) hash(t, n) map(t) opt(t) res(t, e)           *)
(*   tup(ts)  struct(style, fs)  enum(vs)  any                             *)
(* The fields of struct and enum targets are [n |-> name, skip |-> BOOLEAN,*)
(* t |-> target, d |-> tokens of the default value].                       *)
(*                                                                         *)
(* A value is a sequence of tokens <<tag, sequence of numbers>> in prefix  *)
(* notation; a failure has a class with its particulars and the path that  *)
(* leads to it, innermost part first.                                      *)
EXTENDS Types, TLC

CONSTANTS Tgts,    \* target descriptions
          Names    \* the table of names, in order

Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Bad(cls, args) == [ok |-> FALSE, e |-> <<cls, args>>, path |-> <<>>]
BadSk(x, I, t, p) == Bad(ErrClass(x), ErrArgs(I, x))
At1(r, loc) == IF r.ok THEN r ELSE [r EXCEPT !.path = Append(@, loc)]
\* the parts of a path
Idx(i) == "i:" \o ToString(i)
Fld(n) == "f:" \o Names[n]
Vnt(n) == "v:" \o Names[n]
Unexpected(label) == Bad("unexpected:" \o label, <<>>)
WrongLen(actual, expected) == Bad("len", <<actual, expected>>)

\* the order of tokens, and of values made of them
TokLess(a, b) ==
    IF a[1] \in {"+", "-"} THEN NumLess(a, b)
    ELSE IF a[1] = "char" THEN MagLess(a[2], b[2])
    ELSE LexLess(a[2], b[2], 1)
\* the tokens of one value from i on: returns the next i
RECURSIVE Skip1(_, _), SkipK(_, _, _)
SkipK(v, i, k) == IF k = 0 THEN i ELSE SkipK(v, Skip1(v, i), k - 1)
Skip1(v, i) ==
    CASE v[i][1] \in {"[", "(", "{"} -> SkipK(v, i + 1, v[i][2][1])
      [] v[i][1] = "var" -> SkipK(v, i + 1, v[i][2][2])
      [] OTHER -> i + 1
RECURSIVE ValLess(_, _, _)
ValLess(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] = b[i] THEN ValLess(a, b, i + 1)
    ELSE IF a[i][1] = "[" /\ b[i][1] = "["
    THEN \* item by item, and the shorter list first if there is no difference
         LET n == a[i][2][1]
             m == b[i][2][1]
             k == (IF n < m THEN SkipK(a, i + 1, n) ELSE SkipK(b, i + 1, m)) - 1
         IN  IF k <= Len(a) /\ k <= Len(b) /\ SubSeq(a, i + 1, k) = SubSeq(b, i + 1, k) THEN n < m
             ELSE ValLess(a, b, i + 1)
    ELSE TokLess(a[i], b[i])
Before(a, b) == ValLess(a, b, 1)

\* all of them in order (by halves, as there may be many)
RECURSIVE Join(_, _, _)
Join(vs, i, k) == IF i > k THEN <<>> ELSE IF i = k THEN vs[i]
                  ELSE LET m == (i + k) \div 2 IN Join(vs, i, m) \o Join(vs, m + 1, k)
Flatten(vs, i) == Join(vs, i, Len(vs))
RECURSIVE Dedup(_, _)
Dedup(vs, i) == IF i > Len(vs) THEN <<>>
                ELSE IF i > 1 /\ vs[i] = vs[i - 1] THEN Dedup(vs, i + 1)
                ELSE <<vs[i]>> \o Dedup(vs, i + 1)

Fits(d, n) == /\ IF d.p \in UInts THEN FitsU(n, Width(d.p)) ELSE FitsI(n, Width(d.p))
              /\ d.nz => n[2] # <<>>

Label(pr) == pr     \* the label of unexpected data is the name of its kind

\* is a positional match by name impossible?
HasUnnamed(fs) == \E i \in 1..Len(fs) : fs[i][1] = 0
Wanted(ffs) == Cardinality({i \in 1..Len(ffs) : ~ffs[i].skip})

(***************************************************************************)
(* Dec(reg, I, g, t, p, c, e): decode the value of type t at p (within the *)
(* view ending at e, compact encoded if c) into target number g.           *)
(***************************************************************************)
RECURSIVE Dec(_, _, _, _, _, _, _), Vis(_, _, _, _, _, _, _),
          Items(_, _, _, _, _, _, _, _, _), Tup(_, _, _, _, _, _, _, _, _),
          Pos(_, _, _, _, _, _, _, _, _, _, _), Nam(_, _, _, _, _, _, _, _, _),
          MapFs(_, _, _, _, _, _, _, _, _), AnyFs(_, _, _, _, _, _, _, _, _)

----------------------------------------------------------------------------
\* primitives

PrimVal(I, pr, p, c, q) ==    \* the number, bool or char between p and q
    IF c THEN <<"+", Compact(I, p, q, Width(pr))[2]>>
    ELSE IF pr \in SInts \cup {"i256"} THEN Signed(I, p, Width(pr))
    ELSE Unsigned(I, p, Width(pr))

\* where the characters of the string at p start
TextAt(I, p, e) == Compact(I, p, e, 4)[3]

CbPrim(I, d, pr, p, c, q) ==
    IF d.k = "any" THEN
        (CASE pr = "str" -> (IF Utf8(I, TextAt(I, p, q), q)
                             THEN Good(<<<<"str", View(I, TextAt(I, p, q), q)>>>>, q)
                             ELSE Bad("utf8", <<>>))
           [] pr = "char" -> Good(<<<<"char", ULE(I, p, 4)>>>>, q)
           [] pr = "bool" -> Good(<<<<"bool", <<At(I, p)>>>>>>, q)
           [] OTHER -> Good(<<<<pr, <<>>>>, PrimVal(I, pr, p, c, q)>>, q))
    ELSE IF d.k = "num" /\ pr \in Ints THEN
        LET n == PrimVal(I, pr, p, c, q)
        IN  IF Fits(d, n) THEN Good(<<n>>, q) ELSE Bad("range" \o n[1], n[2])
    ELSE IF d.k = "bool" /\ pr = "bool" THEN Good(<<<<"bool", <<At(I, p)>>>>>>, q)
    ELSE IF d.k = "char" /\ pr = "char" THEN Good(<<<<"char", ULE(I, p, 4)>>>>, q)
    ELSE IF d.k = "str" /\ pr = "str" THEN
        LET s == TextAt(I, p, q)
        IN  IF Utf8(I, s, q) THEN Good(<<<<"str", View(I, s, q)>>>>, q) ELSE Bad("utf8", <<>>)
    ELSE Unexpected(Label(pr))

----------------------------------------------------------------------------
\* lists: n items of type t, each into target g; vs collects the values
Items(reg, I, g, t, n, p, e, i, vs) ==
    IF i = n THEN Good(vs, p)
    ELSE LET r == Dec(reg, I, g, t, p, FALSE, e)
         IN  IF ~r.ok THEN At1(r, Idx(i))
             \* the remaining items have no bytes either, and are all alike
             ELSE IF r.p = p THEN Good(vs \o [k \in 1..(n - i) |-> r.v], p)
             ELSE Items(reg, I, g, t, n, r.p, e, i + 1, Append(vs, r.v))

Listed(reg, I, d, t, n, p, e) ==
    LET r == Items(reg, I, d.t, t, n, p, e, 0, <<>>) IN
    IF ~r.ok THEN r
    ELSE LET vs == r.v
             flat(ws) == Good(<<<<"[", <<Len(ws)>>>>>> \o Flatten(ws, 1), r.p)
         IN  CASE d.k = "list" -> flat(vs)
               [] d.k \in {"arr", "hash"} -> IF n = d.n THEN flat(vs) ELSE WrongLen(n, d.n)
               [] d.k = "set" -> flat(Dedup(SortSeq(vs, Before), 1))
               [] d.k = "heap" -> flat(SortSeq(vs, Before))

\* a target which shows everything
AnyList(reg, I, g, t, n, p, e, tag) ==
    LET r == Items(reg, I, g, t, n, p, e, 0, <<>>)
    IN  IF ~r.ok THEN r ELSE Good(<<<<tag, <<n>>>>>> \o Flatten(r.v, 1), r.p)
AnyFs(reg, I, g, fs, i, p, c, e, v) ==
    IF i > Len(fs) THEN Good(v, p)
    ELSE LET r == Dec(reg, I, g, fs[i][2], p, c, e)
         IN  IF ~r.ok THEN At1(r, IF fs[i][1] = 0 THEN Idx(i - 1) ELSE Fld(fs[i][1]))
             ELSE AnyFs(reg, I, g, fs, i + 1, r.p, c, e, v \o r.v)
NamesOf(fs) == [i \in 1..Len(fs) |-> fs[i][1]]

----------------------------------------------------------------------------
\* tuples: the i-th field into the i-th target
Tup(reg, I, ts, fs, i, p, c, e, v) ==
    IF i > Len(ts) THEN Good(v, p)
    ELSE LET r == Dec(reg, I, ts[i], fs[i][2], p, c, e)
         IN  IF ~r.ok THEN At1(r, Idx(i - 1))
             ELSE Tup(reg, I, ts, fs, i + 1, r.p, c, e, v \o r.v)
AsTup(reg, I, d, fs, p, c, e) ==
    IF Len(fs) # Len(d.ts) THEN WrongLen(Len(fs), Len(d.ts))
    ELSE Tup(reg, I, d.ts, fs, 1, p, c, e, <<<<"(", <<Len(d.ts)>>>>>>)

\* struct fields by position: field j of the target, field i of the data
Pos(reg, I, named, ffs, j, fs, i, p, c, e, v) ==
    IF j > Len(ffs) THEN Good(v, p)
    ELSE IF ffs[j].skip THEN Pos(reg, I, named, ffs, j + 1, fs, i, p, c, e, v \o ffs[j].d)
    ELSE LET q == Sk(reg, I, fs[i][2], p, c, e) IN
         IF q < 0 THEN BadSk(q, I, fs[i][2], p)
         ELSE LET r == Dec(reg, I, ffs[j].t, fs[i][2], p, c, q)
              IN  IF ~r.ok THEN At1(r, IF named THEN Fld(ffs[j].n) ELSE Idx(j - 1))
                  ELSE Pos(reg, I, named, ffs, j + 1, fs, i + 1, q, c, e, v \o r.v)
AsPos(reg, I, named, ffs, fs, p, c, e, head) ==
    IF Len(fs) # Wanted(ffs) THEN WrongLen(Len(fs), Wanted(ffs))
    ELSE Pos(reg, I, named, ffs, 1, fs, 1, p, c, e, head)

\* struct fields by name; cuts are the positions of the fields in the data
Nam(reg, I, ffs, j, fs, cuts, c, v, last) ==
    IF j > Len(ffs) THEN Good(v, last)
    ELSE IF ffs[j].skip THEN Nam(reg, I, ffs, j + 1, fs, cuts, c, v \o ffs[j].d, last)
    ELSE LET at == {i \in 1..Len(fs) : fs[i][1] = ffs[j].n} IN
         IF at = {} THEN Bad("field", <<ffs[j].n>>)
         ELSE LET i == CHOOSE i \in at : \A k \in at : k <= i
                  r == Dec(reg, I, ffs[j].t, fs[i][2], cuts[i], c, cuts[i + 1])
              IN  IF ~r.ok THEN At1(r, Fld(ffs[j].n))
                  ELSE Nam(reg, I, ffs, j + 1, fs, cuts, c, v \o r.v, last)
AsNam(reg, I, ffs, fs, p, c, e, head) ==
    LET cuts == Cuts(reg, I, fs, 1, p, c, e)
        n    == Len(cuts)
    IN  IF cuts[n] < 0 THEN BadSk(cuts[n], I, fs[n - 1][2], cuts[n - 1])
        ELSE Nam(reg, I, ffs, 1, fs, cuts, c, head, cuts[n])

AsStruct(reg, I, d, fs, p, c, e) ==
    LET head == <<<<"{", <<Len(d.fs)>>>>>> IN
    IF d.style = "named"
    THEN (IF HasUnnamed(fs) THEN AsPos(reg, I, TRUE, d.fs, fs, p, c, e, head)
          ELSE AsNam(reg, I, d.fs, fs, p, c, e, head))
    ELSE AsPos(reg, I, FALSE, d.fs, fs, p, c, e, head)
\* from a tuple: always by position
AsStructTup(reg, I, d, fs, p, c, e) ==
    AsPos(reg, I, d.style = "named", d.fs, fs, p, c, e, <<<<"{", <<Len(d.fs)>>>>>>)

----------------------------------------------------------------------------
\* maps: the entries (sets of <<name, value>>), a later one replaces
MapFs(reg, I, g, fs, i, p, c, e, m) ==
    IF i > Len(fs) THEN Good(m, p)
    ELSE IF fs[i][1] = 0
    THEN LET q == Sk(reg, I, fs[i][2], p, c, e)
         IN  IF q < 0 THEN BadSk(q, I, fs[i][2], p) ELSE MapFs(reg, I, g, fs, i + 1, q, c, e, m)
    ELSE LET r == Dec(reg, I, g, fs[i][2], p, c, e)
         IN  IF ~r.ok THEN At1(r, Fld(fs[i][1]))
             ELSE MapFs(reg, I, g, fs, i + 1, r.p, c, e,
                        {x \in m : x[1] # fs[i][1]} \cup {<<fs[i][1], r.v>>})
RECURSIVE MapToks(_)
MapToks(m) == IF m = {} THEN <<>>
              ELSE LET x == CHOOSE x \in m : \A y \in m : x[1] <= y[1]
                   IN  <<<<"key", <<x[1]>>>>>> \o x[2] \o MapToks(m \ {x})
AsMap(reg, I, d, fs, p, c, e) ==
    LET r == MapFs(reg, I, d.t, fs, 1, p, c, e, {})
    IN  IF ~r.ok THEN r ELSE Good(<<<<"map", <<Cardinality(r.v)>>>>>> \o MapToks(r.v), r.p)

----------------------------------------------------------------------------
\* options, results and enums: by the name of the variant
NameNo(s) == CHOOSE i \in 1..Len(Names) : Names[i] = s

OneOf(reg, I, d, g, v, p, e, name) ==
    LET r == Dec(reg, I, g, v.fs[1][2], p, FALSE, e)
    IN  IF ~r.ok THEN At1(r, "v:" \o name)
        ELSE Good(<<<<"var", <<v.n, 1>>>>>> \o r.v, r.p)
CbVar(reg, I, d, g, v, p, e) ==
    CASE d.k = "opt" ->
           (IF Names[v.n] = "Some" /\ Len(v.fs) = 1 THEN OneOf(reg, I, d, d.t, v, p, e, "Some")
            ELSE IF Names[v.n] = "None" /\ v.fs = <<>> THEN Good(<<<<"var", <<v.n, 0>>>>>>, p)
            ELSE Bad("variant", <<v.n, NameNo("Some"), NameNo("None")>>))
      [] d.k = "res" ->
           (IF Names[v.n] = "Ok" /\ Len(v.fs) = 1 THEN OneOf(reg, I, d, d.t, v, p, e, "Ok")
            ELSE IF Names[v.n] = "Err" /\ Len(v.fs) = 1 THEN OneOf(reg, I, d, d.e, v, p, e, "Err")
            ELSE Bad("variant", <<v.n, NameNo("Ok"), NameNo("Err")>>))
      [] d.k = "enum" ->
           (LET is == {i \in 1..Len(d.vs) : d.vs[i].n = v.n} IN
           IF is = {} THEN Bad("variant", <<v.n>> \o [i \in 1..Len(d.vs) |-> d.vs[i].n])
           ELSE LET tv   == d.vs[CHOOSE i \in is : TRUE]
                    head == <<<<"var", <<v.n, Len(tv.fs)>>>>>>
                IN  CASE tv.style = "unit" -> Good(head, p)
                      [] tv.style = "unnamed" ->
                            AsPos(reg, I, FALSE, tv.fs, v.fs, p, FALSE, e, head)
                      [] tv.style = "named" ->
                            IF HasUnnamed(v.fs) THEN AsPos(reg, I, TRUE, tv.fs, v.fs, p, FALSE, e, head)
                            ELSE AsNam(reg, I, tv.fs, v.fs, p, FALSE, e, head))
      [] d.k = "any" ->
           LET r == AnyFs(reg, I, g, v.fs, 1, p, FALSE, e, <<>>)
           IN  IF ~r.ok THEN At1(r, Vnt(v.n))
               ELSE Good(<<<<"variant", <<v.n, v.i>> \o NamesOf(v.fs)>>>> \o r.v, r.p)
      [] OTHER -> Unexpected("variant")

----------------------------------------------------------------------------
\* composites and tuples
SeesThrough == {"num", "bool", "char", "str", "bits", "list", "set", "heap", "arr", "hash", "opt", "res", "enum"}

CbFields(reg, I, d, g, fs, p, c, e, label) ==
    CASE d.k \in SeesThrough ->
            IF Len(fs) # 1 THEN Unexpected(label) ELSE Dec(reg, I, g, fs[1][2], p, c, e)
      [] d.k = "phantom" -> IF fs = <<>> THEN Good(<<<<"phantom", <<>>>>>>, p) ELSE Unexpected(label)
      [] d.k = "tup" -> AsTup(reg, I, d, fs, p, c, e)
      [] d.k = "struct" -> IF label = "tuple" THEN AsStructTup(reg, I, d, fs, p, c, e)
                           ELSE AsStruct(reg, I, d, fs, p, c, e)
      [] d.k = "map" -> IF label = "tuple" THEN Unexpected(label) ELSE AsMap(reg, I, d, fs, p, c, e)
      [] d.k = "any" ->
            LET r == AnyFs(reg, I, g, fs, 1, p, c, e, <<>>)
            IN  IF ~r.ok THEN r ELSE Good(<<<<label, NamesOf(fs)>>>> \o r.v, r.p)

\* a callback's success stands only if the rest of the value can be skipped
Finish(reg, I, t, p, c, e, r) ==
    IF ~r.ok THEN r
    ELSE LET q == Sk(reg, I, t, p, c, e)
         IN  IF q < 0 THEN BadSk(q, I, t, p) ELSE [r EXCEPT !.p = q]

Vis(reg, I, g, t, p, c, e) ==
    LET d == Def(reg, t)
        x == Tgts[g]
        fin(r) == Finish(reg, I, t, p, c, e, r)
    IN
    CASE d.k = "missing" -> Bad("notfound", <<t>>)
      [] d.k = "err" -> Bad("resolve", <<>>)
      [] d.k = "compact" -> Dec(reg, I, g, d.t, p, TRUE, e)
      [] d.k = "prim" ->
            LET q == SkPrim(I, d.p, p, c, e)
            IN  IF q < 0 THEN BadSk(q, I, t, p) ELSE CbPrim(I, x, d.p, p, c, q)
      [] d.k = "comp" -> IF c /\ Len(d.fs) # 1 THEN Bad("compact", <<>>)
                         ELSE fin(CbFields(reg, I, x, g, d.fs, p, c, e, "composite"))
      [] d.k = "tup" -> IF c /\ Len(d.ts) # 1 THEN Bad("compact", <<>>)
                        ELSE fin(CbFields(reg, I, x, g, Unit(d.ts), p, c, e, "tuple"))
      [] c -> Bad("compact", <<>>)
      [] d.k = "var" ->
            IF p >= e THEN Bad("input", <<>>)
            ELSE IF ~HasVariant(d, At(I, p)) THEN Bad("novariant", <<At(I, p)>>)
            ELSE fin(CbVar(reg, I, x, g, VariantOf(d, At(I, p)), p + 1, e))
      [] d.k = "seq" ->
            LET r == Compact(I, p, e, 8)
            IN  IF ~r[1] THEN Bad("input", <<>>)
                ELSE IF x.k \in {"list", "set", "heap", "arr", "hash"}
                THEN fin(Listed(reg, I, x, d.t, ToInt(r[2]), r[3], e))
                ELSE IF x.k = "any"
                THEN fin(AnyList(reg, I, g, d.t, ToInt(r[2]), r[3], e, "sequence"))
                ELSE Unexpected("sequence")
      [] d.k = "arr" ->
            IF x.k \in {"list", "set", "heap", "arr", "hash"}
            THEN fin(Listed(reg, I, x, d.t, d.n, p, e))
            ELSE IF x.k = "any" THEN fin(AnyList(reg, I, g, d.t, d.n, p, e, "array"))
            ELSE Unexpected("array")
      [] d.k = "bits" ->
            IF x.k \in {"bits", "any"}
            THEN LET q == Sk(reg, I, t, p, FALSE, e) IN
                 IF q < 0 THEN BadSk(q, I, t, p)
                 ELSE LET r == Compact(I, p, e, 4)
                      IN  Good(<<<<"bits", Bits(I, r[3], d.w, d.msb, ToInt(r[2]))>>>>, q)
            ELSE Unexpected("bitsequence")

\* 10^9 nanoseconds make a second
Seconds(secs, nanos) ==
    LET a == DivSmall(nanos, 1000)  b == DivSmall(a[1], 1000)  c == DivSmall(b[1], 1000)
        whole == ToInt(c[1])                                 \* at most 4
        rest  == a[2] + 1000 * b[2] + 1000000 * c[2]
    IN  <<AddSmall(secs, whole), OfInt(rest)>>

Dec(reg, I, g, t, p, c, e) ==
    LET x == Tgts[g] IN
    CASE x.k = "wrap" -> Dec(reg, I, x.t, t, p, c, e)
      [] x.k = "hash" -> Vis(reg, I, g, t, p, c, e)
      [] x.k = "range" -> Dec(reg, I, x.t, t, p, c, e)
      [] x.k = "dur" ->
            LET r == Dec(reg, I, x.t, t, p, c, e) IN
            IF ~r.ok THEN r
            ELSE LET s == Seconds(r.v[2][2], r.v[3][2])
                 IN  IF Len(s[1]) > 8 THEN Bad("custom", <<>>)
                     ELSE Good(<<<<"dur", <<>>>>, <<"+", s[1]>>, <<"+", s[2]>>>>, r.p)
      [] x.k = "tup" /\ Len(x.ts) = 1 /\ Def(reg, t).k \notin {"comp", "tup", "missing", "err"} ->
            LET r == Dec(reg, I, x.ts[1], t, p, c, e)
            IN  IF ~r.ok THEN r ELSE Good(<<<<"(", <<1>>>>>> \o r.v, r.p)
      [] OTHER -> Vis(reg, I, g, t, p, c, e)

\* decoding from a list of fields
DecFields(reg, I, g, fs, p, e) ==
    LET x == Tgts[g]
        r == CbFields(reg, I, x, g, fs, p, FALSE, e, "composite")
    IN  IF ~r.ok THEN r
        ELSE LET q == SkFs(reg, I, fs, 1, p, FALSE, e)
             IN  IF q < 0 THEN BadSk(q, I, 0, p) ELSE [r EXCEPT !.p = q]
=============================================================================
