------------------------------- MODULE Session -------------------------------
(* What happens when a value is decoded with a visitor that makes whatever *)
(* use it likes of the handles it is given.                                *)
(*                                                                         *)
(* A session is a sequence of events.  The visitor chooses: which mode it  *)
(* decodes something in, what it does next with a handle, and whether it   *)
(* accepts.  Everything else is up to the library, and is what is said     *)
(* here: Step(reg, I, s, ev) is the state after state s when the choices   *)
(* of event ev were made, together with all that the event has to show.    *)
(*                                                                         *)
(* Modes of visitors: norm (logs everything and goes on as it chooses),    *)
(* ign (the crate's own, which ignores everything), take and takerej       *)
(* (moves the cursor by k bytes and returns success or a rejection, before *)
(* anything is decoded), decl (moves the cursor and declines), fall (only  *)
(* has the fallback for unexpected data), none (has nothing); and each of  *)
(* them behind the adapter to the crate's error (vwce, vign, vtake, ...).  *)
EXTENDS Targets

\* Counts of items are exact up to 2^31 - 2^24; no session takes that many.
Huge == 2147483647
Count(m) == IF Len(m) > 4 \/ (Len(m) = 4 /\ m[4] >= 127) THEN Huge ELSE MagFrom(m, Len(m))
Clip(n) == IF n > Big THEN Big ELSE n
Less1(n) == IF n = Huge THEN Huge ELSE n - 1
Min(a, b) == IF a < b THEN a ELSE b

\* a part of the input, the offset of an empty one meaning nothing
Slice(p, e) == IF p = e THEN <<-1, 0>> ELSE <<p, e - p>>
NoSlice == <<-1, 0>>

(***************************************************************************)
(* Results of decoding something: p is where the cursor is afterwards, and *)
(* -1 if that is not determined (only where something malformed was met).  *)
(* What comes with it is the shelf of items the visitor stored.            *)
(***************************************************************************)
Unknown == -1
Ok(p, shelf) == [r |-> "ok", n |-> 0, cls |-> "", p |-> p, shelf |-> shelf]
Err(cls, p) == [r |-> "err", n |-> 0, cls |-> cls, p |-> p, shelf |-> <<>>]
Rej(n, p) == [r |-> "rej", n |-> n, cls |-> "", p |-> p, shelf |-> <<>>]
None == [r |-> "none", n |-> 0, cls |-> "", p |-> 0, shelf |-> <<>>]
Known(q) == IF q < 0 THEN Unknown ELSE q
\* the result of a visitor stands if it failed, and otherwise if the rest can be skipped
Settled(q, shelf) == IF q < 0 THEN Err(ErrClass(q), Unknown) ELSE Ok(q, shelf)

(***************************************************************************)
(* The state: control, the stack of handles in use (the bottom one stands  *)
(* for the caller), and the number of rejections so far.                   *)
(***************************************************************************)
Lists == {"seq", "arr"}
IsList(fr) == fr.f \in Lists
Top(s) == s.fr[Len(s.fr)]
SetTop(s, fr) == [s EXCEPT !.fr[Len(s.fr)] = fr]
Push(s, fr) == [s EXCEPT !.fr = Append(@, fr)]
Pop(s) == [s EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
Ctl(s, k) == [s EXCEPT !.ctl = [k |-> k]]
Result(s, r) == [s EXCEPT !.ctl = [k |-> "res", r |-> r]]

Initially == [ctl |-> [k |-> "start"], fr |-> <<>>, nrej |-> 0]
Caller == [f |-> "top", shelf |-> <<>>, wait |-> <<"done", 0>>, last |-> None]

\* back to whoever may go on
Resume(s) == Ctl(s, IF Top(s).f = "top" THEN "after" ELSE "work")

Left(fr) == IF IsList(fr) THEN fr.n ELSE Len(fr.fs) + 1 - fr.i
Lost(fr) == fr.cur = Unknown
ItemTy(fr) == IF IsList(fr) THEN fr.t ELSE fr.fs[fr.i][2]
ItemName(fr) == IF fr.f \in {"comp", "var"} THEN fr.fs[fr.i][1] ELSE 0
Peek(fr) == IF fr.f \in {"comp", "var"} /\ fr.i <= Len(fr.fs) THEN fr.fs[fr.i][1] ELSE 0

\* everything a handle says about itself, as far as it is determined; what it says
\* of its type (its name, path, variant index and all fields) never changes (about)
Obs(fr) == [about |-> TRUE] @@
    IF Lost(fr) THEN
        (IF fr.n < 0 THEN [start |-> Slice(fr.start, fr.e)]
         ELSE [start |-> Slice(fr.start, fr.e), rem |-> Clip(fr.n), empty |-> fr.n = 0])
    ELSE [rem |-> Clip(Left(fr)), empty |-> Left(fr) = 0, peek |-> Peek(fr),
          start |-> Slice(fr.start, fr.e), und |-> Slice(fr.cur, fr.e),
          s2 |-> IF fr.f = "var" THEN Slice(fr.start + 1, fr.e) ELSE NoSlice,
          u2 |-> IF fr.f = "var" THEN Slice(fr.cur, fr.e) ELSE NoSlice]

\* what a stored item says about itself
It(x) == [b |-> Slice(x.p, x.q), ty |-> x.ty, name |-> x.name, c |-> x.c]

\* the end of what is left of a handle's value
Rest(reg, I, fr) ==
    IF IsList(fr) THEN SkN(reg, I, fr.t, fr.n, fr.cur, fr.e)
    ELSE SkFs(reg, I, fr.fs, IF fr.fail # 0 THEN fr.fail ELSE fr.i, fr.cur, fr.c, fr.e)

\* an item was decoded, with result r
Took(fr, r) ==
    LET good == r.r = "ok"
        fr1  == [fr EXCEPT !.shelf = IF good THEN @ \o r.shelf ELSE @, !.last = IF good THEN @ ELSE r]
    IN  IF r.r = "none" THEN fr
        ELSE IF IsList(fr) THEN [fr1 EXCEPT !.n = Less1(@), !.cur = r.p]
        ELSE IF good THEN [fr1 EXCEPT !.cur = r.p, !.i = @ + 1]
        \* no more fields, but skipping goes on from the one that failed
        ELSE [fr1 EXCEPT !.fail = fr.i, !.i = Len(fr.fs) + 1]

\* skipping what is left, explicitly
Skipped(reg, I, fr) ==
    LET q == Rest(reg, I, fr) IN
    IF q >= 0 THEN
        (IF IsList(fr) THEN [fr EXCEPT !.n = 0, !.cur = q]
         ELSE [fr EXCEPT !.cur = q, !.i = Len(fr.fs) + 1, !.fail = 0])
    ELSE LET bad == [fr EXCEPT !.last = Err(ErrClass(q), Unknown)] IN
         IF IsList(fr) THEN [bad EXCEPT !.n = -1, !.cur = Unknown]
         ELSE LET from == IF fr.fail # 0 THEN fr.fail ELSE fr.i
                  cuts == Cuts(reg, I, fr.fs, from, fr.cur, fr.c, fr.e)
                  n    == Len(cuts)
              IN  [bad EXCEPT !.fail = from + n - 2, !.i = Len(fr.fs) + 1, !.cur = cuts[n - 1]]

(***************************************************************************)
(* Calls: decode type ty at p, within the view ending at e, compact        *)
(* encoded if c, with a visitor of mode m.                                 *)
(***************************************************************************)
Plainly == [vwce |-> "norm", vign |-> "ign", vtake |-> "take", vtakerej |-> "takerej", vdecl |-> "decl", vfall |-> "fall", vnone |-> "none"]
Cl(ty, p, c, e, m, k) == [ty |-> ty, p |-> p, c |-> c, e |-> e, m |-> IF m \in DOMAIN Plainly THEN Plainly[m] ELSE m, k |-> k, tag |-> 0]
Asked == {"norm", "take", "takerej", "decl"}     \* those which are asked before anything is decoded

LabelOf(d) == CASE d.k = "prim" -> d.p [] d.k = "comp" -> "composite" [] d.k = "tup" -> "tuple"
                [] d.k = "seq" -> "sequence" [] d.k = "arr" -> "array" [] d.k = "var" -> "variant"
                [] d.k = "bits" -> "bitsequence"

\* what is wrong before there is something to call back with
Early(reg, I, cl) ==
    LET d == Def(reg, cl.ty) IN
    CASE d.k = "missing" -> "notfound"
      [] d.k = "err" -> "resolve"
      [] d.k = "prim" -> LET q == SkPrim(I, d.p, cl.p, cl.c, cl.e) IN IF q < 0 THEN ErrClass(q) ELSE ""
      [] d.k = "comp" -> IF cl.c /\ Len(d.fs) # 1 THEN "compact" ELSE ""
      [] d.k = "tup" -> IF cl.c /\ Len(d.ts) # 1 THEN "compact" ELSE ""
      [] cl.c -> "compact"
      [] d.k = "var" -> IF cl.p >= cl.e THEN "input" ELSE IF ~HasVariant(d, At(I, cl.p)) THEN "novariant" ELSE ""
      [] d.k = "seq" -> IF Compact(I, cl.p, cl.e, 8)[1] THEN "" ELSE "input"
      [] OTHER -> ""

RECURSIVE Enter(_, _, _, _), Call(_, _, _, _)
Call(reg, I, s, cl) ==
    IF cl.m \in Asked THEN [s EXCEPT !.ctl = [k |-> "pre", cl |-> cl]] ELSE Enter(reg, I, s, cl)
Enter(reg, I, s, cl) ==
    LET d == Def(reg, cl.ty) IN
    IF d.k = "compact" THEN Call(reg, I, s, [cl EXCEPT !.ty = d.t, !.c = TRUE])
    ELSE LET x == Early(reg, I, cl)
             q == Sk(reg, I, cl.ty, cl.p, cl.c, cl.e)
         IN  IF x # "" THEN Result(s, Err(x, Unknown))
             ELSE IF cl.m = "ign" THEN Result(s, Settled(q, <<>>))
             ELSE IF cl.m = "none" THEN Result(s, Err("unexpected:" \o LabelOf(d), Known(q)))
             ELSE [s EXCEPT !.ctl = [k |-> "cb", cl |-> cl]]

NotAllowed(s) == [rec |-> [op |-> "nothing"], s |-> s]

----------------------------------------------------------------------------
\* before decoding: the visitor may take over

Asks(reg, I, s) ==
    LET cl == s.ctl.cl
        p  == cl.p + Min(cl.k, cl.e - cl.p)
        rec == [op |-> "pre", ty |-> cl.ty, at |-> Slice(cl.p, cl.e), tag |-> cl.tag, same |-> TRUE]
    IN  [rec |-> rec,
         s |-> CASE cl.m = "take" -> Result(s, Ok(p, <<>>))
                 [] cl.m = "takerej" -> Result([s EXCEPT !.nrej = @ + 1], Rej(s.nrej + 1, p))
                 [] cl.m = "decl" -> Enter(reg, I, s, [cl EXCEPT !.m = "norm", !.tag = 1, !.p = p])
                 [] OTHER -> Enter(reg, I, s, cl)]

----------------------------------------------------------------------------
\* callbacks

\* the visitor accepts or rejects a value which ends at q
Verdict(s, ev, q) ==
    IF ev.do = "rej" THEN Result([s EXCEPT !.nrej = @ + 1], Rej(s.nrej + 1, Known(q))) ELSE Result(s, Settled(q, <<>>))
Number(s, ev) == IF ev.do = "rej" THEN s.nrej + 1 ELSE 0

ShownPrim(I, pr, p, c, q) ==
    IF pr = "bool" THEN <<"bool", <<At(I, p)>>>>
    ELSE IF pr = "char" THEN <<"char", ULE(I, p, 4)>>
    ELSE PrimVal(I, pr, p, c, q)

Frame(kind, cl, d) ==
    [f |-> kind, ty |-> cl.ty, start |-> cl.p, cur |-> cl.p, e |-> cl.e, c |-> cl.c, t |-> 0, n |-> 0, fs |-> <<>>, i |-> 1,
     fail |-> 0, shelf |-> <<>>, last |-> None, wait |-> <<"", 0>>]
Opened(reg, I, cl) ==
    LET d == Def(reg, cl.ty) IN
    CASE d.k = "seq" -> LET r == Compact(I, cl.p, cl.e, 8)
                        IN  [Frame("seq", cl, d) EXCEPT !.t = d.t, !.n = Count(r[2]), !.cur = r[3]]
      [] d.k = "arr" -> [Frame("arr", cl, d) EXCEPT !.t = d.t, !.n = d.n]
      [] d.k = "tup" -> [Frame("tup", cl, d) EXCEPT !.fs = Unit(d.ts)]
      [] d.k = "comp" -> [Frame("comp", cl, d) EXCEPT !.fs = d.fs]
      [] d.k = "var" -> [Frame("var", cl, d) EXCEPT !.fs = VariantOf(d, At(I, cl.p)).fs, !.cur = cl.p + 1]

CbText(I, s, ev, cl, q) ==
    LET c == Compact(I, cl.p, cl.e, 4)
        n == q - c[3]
    IN  [rec |-> [op |-> "str", ty |-> cl.ty, tag |-> cl.tag, len |-> n, empty |-> n = 0, start |-> Slice(cl.p, cl.e),
                  after |-> <<"", Slice(q, cl.e)>>,
                  text |-> IF Utf8(I, c[3], q) THEN <<"", Slice(c[3], q)>> ELSE <<"utf8", NoSlice>>,
                  do |-> ev.do, n |-> Number(s, ev)],
         s |-> Verdict(s, ev, q)]

CbBits(reg, I, s, ev, cl, q) ==
    LET d == Def(reg, cl.ty)
        after == IF q < 0 THEN <<"input", NoSlice>> ELSE <<"", Slice(q, cl.e)>>
        c == Compact(I, cl.p, cl.e, 4)
    IN  [rec |-> [op |-> "bits", ty |-> cl.ty, tag |-> cl.tag, start |-> Slice(cl.p, cl.e), how |-> ev.how, a1 |-> after,
                  dec |-> IF ev.how = "look" THEN <<"", <<>>>>
                          ELSE IF q < 0 THEN <<"input", <<>>>>
                          ELSE <<"", Bits(I, c[3], d.w, d.msb, ToInt(c[2]))>>,
                  a2 |-> after, do |-> ev.do, n |-> Number(s, ev)],
         s |-> Verdict(s, ev, q)]

CbOpen(reg, I, s, cl) ==
    LET d  == Def(reg, cl.ty)
        fr == Opened(reg, I, cl)
        fs == IF fr.f \in {"comp", "var"} THEN fr.fs ELSE <<>>
        v  == VariantOf(d, At(I, cl.p))
    IN  [rec |-> [op |-> "open", kind |-> fr.f, ty |-> cl.ty, tag |-> cl.tag, o |-> Obs(fr),
                  index |-> IF fr.f = "var" THEN v.i ELSE -1,
                  name |-> IF fr.f = "var" THEN v.n ELSE IF fr.f = "comp" /\ d.path # <<>> THEN d.path[Len(d.path)] ELSE 0,
                  path |-> IF fr.f = "comp" THEN d.path ELSE IF fr.f = "var" THEN <<v.n>> ELSE <<>>,
                  fs |-> fs, unnamed |-> HasUnnamed(fs)],
         s |-> Ctl(Push(s, fr), "work")]

Calls(reg, I, s, ev) ==
    LET cl == s.ctl.cl
        d  == Def(reg, cl.ty)
        q  == Sk(reg, I, cl.ty, cl.p, cl.c, cl.e)
    IN  IF cl.m = "fall" THEN
            (IF ev.op # "unexp" THEN NotAllowed(s)
             ELSE [rec |-> [op |-> "unexp", label |-> LabelOf(d), do |-> ev.do, n |-> Number(s, ev)], s |-> Verdict(s, ev, q)])
        ELSE IF d.k = "prim" /\ d.p = "str" THEN (IF ev.op = "str" THEN CbText(I, s, ev, cl, q) ELSE NotAllowed(s))
        ELSE IF d.k = "prim" THEN
            (IF ev.op # "prim" THEN NotAllowed(s)
             ELSE [rec |-> [op |-> "prim", kind |-> d.p, v |-> <<ShownPrim(I, d.p, cl.p, cl.c, q)>>,
                            at |-> IF d.p \in {"u256", "i256"} THEN Slice(cl.p, q) ELSE NoSlice,
                            ty |-> cl.ty, tag |-> cl.tag, do |-> ev.do, n |-> Number(s, ev)],
                   s |-> Verdict(s, ev, q)])
        ELSE IF d.k = "bits" THEN (IF ev.op = "bits" THEN CbBits(reg, I, s, ev, cl, q) ELSE NotAllowed(s))
        ELSE IF ev.op = "open" THEN CbOpen(reg, I, s, cl) ELSE NotAllowed(s)

----------------------------------------------------------------------------
\* the result of a call reaches who made it

Returns(s, ev) ==
    LET r    == s.ctl.r
        fr   == Top(s)
        wait == fr.wait
    IN  IF ev.op = "ret" /\ wait[1] = "item" THEN
            LET fr1 == [Took(fr, r) EXCEPT !.wait = <<"", 0>>]
            IN  [rec |-> [op |-> "ret", r |-> r.r, n |-> r.n, cls |-> r.cls, o |-> Obs(fr1)], s |-> Ctl(SetTop(s, fr1), "work")]
        ELSE IF ev.op = "lret" /\ wait[1] = "later" THEN
            LET fr1 == [fr EXCEPT !.wait = <<"", 0>>, !.shelf = @ \o r.shelf]
            IN  [rec |-> [op |-> "lret", r |-> r.r, n |-> r.n, cls |-> r.cls, it |-> It(fr.shelf[wait[2]])], s |-> Resume(SetTop(s, fr1))]
        ELSE IF ev.op = "done" /\ wait[1] = "done" THEN
            LET fr1 == [fr EXCEPT !.wait = <<"", 0>>, !.shelf = r.shelf]
                rec == [op |-> "done", r |-> r.r, n |-> r.n, cls |-> r.cls, tail |-> TRUE]
            IN  [rec |-> IF r.p = Unknown THEN rec ELSE [pos |-> r.p] @@ rec, s |-> Ctl(SetTop(s, fr1), "after")]
        ELSE NotAllowed(s)

----------------------------------------------------------------------------
\* the visitor works with a handle

DoItem(reg, I, s, ev) ==
    LET fr == Top(s)
        s1 == SetTop(s, [fr EXCEPT !.wait = <<"item", 0>>])
    IN  IF Lost(fr) THEN NotAllowed(s)
        ELSE [rec |-> [op |-> "item", m |-> ev.m, k |-> ev.k],
              s |-> IF Left(fr) = 0 THEN Result(s1, None)
                    ELSE Call(reg, I, s1, Cl(ItemTy(fr), fr.cur, fr.c, fr.e, ev.m, ev.k))]

DoNext(reg, I, s) ==
    LET fr == Top(s) IN
    IF Lost(fr) THEN NotAllowed(s)
    ELSE IF Left(fr) = 0 THEN [rec |-> [op |-> "next", r |-> "none", cls |-> "", o |-> Obs(fr)], s |-> s]
    ELSE LET q == Sk(reg, I, ItemTy(fr), fr.cur, fr.c, fr.e)
             x == [p |-> fr.cur, q |-> q, ty |-> ItemTy(fr), name |-> ItemName(fr), c |-> fr.c]
             fr1 == Took(fr, Settled(q, <<x>>))
             s1 == SetTop(s, fr1)
         IN  IF q < 0 THEN [rec |-> [op |-> "next", r |-> "err", cls |-> ErrClass(q), o |-> Obs(fr1)], s |-> s1]
             ELSE [rec |-> [op |-> "next", r |-> "ok", cls |-> "", it |-> It(x), o |-> Obs(fr1)], s |-> s1]

OnShelf(fr, ev) == ev.i \in 1..Len(fr.shelf)
DoLater(reg, I, s, ev) ==
    LET fr == Top(s) IN
    IF ~OnShelf(fr, ev) THEN NotAllowed(s)
    ELSE LET x == fr.shelf[ev.i] IN
         [rec |-> [op |-> "later", i |-> ev.i, m |-> ev.m, k |-> ev.k],
          s |-> Call(reg, I, SetTop(s, [fr EXCEPT !.wait = <<"later", ev.i>>]), Cl(x.ty, x.p, x.c, x.q, ev.m, ev.k))]

DoClone(s, ev) ==
    LET fr == Top(s) IN
    IF ~OnShelf(fr, ev) THEN NotAllowed(s)
    ELSE [rec |-> [op |-> "clone", i |-> ev.i, it |-> It(fr.shelf[ev.i])], s |-> SetTop(s, [fr EXCEPT !.shelf = Append(@, fr.shelf[ev.i])])]

DoSkip(reg, I, s) ==
    LET fr  == Top(s) IN
    IF Lost(fr) THEN NotAllowed(s)
    ELSE LET q == Rest(reg, I, fr)
             fr1 == Skipped(reg, I, fr)
         IN  [rec |-> [op |-> "skip", r |-> IF q < 0 THEN "err" ELSE "ok", cls |-> IF q < 0 THEN ErrClass(q) ELSE "", o |-> Obs(fr1)],
              s |-> SetTop(s, fr1)]

\* a tuple of the remaining fields, which is independent of the handle
DoTuple(s) ==
    LET fr == Top(s) IN
    IF fr.f \notin {"comp", "var"} THEN NotAllowed(s)
    ELSE LET t == [Frame("der", [ty |-> fr.ty, p |-> fr.cur, e |-> fr.e, c |-> fr.c], 0) EXCEPT
                     !.fs = SubSeq(fr.fs, fr.i, Len(fr.fs)), !.shelf = fr.shelf]
         IN  [rec |-> [op |-> "tuple", o |-> Obs(t)], s |-> Push(s, t)]
DoTend(s) ==
    LET t == Top(s) IN
    IF t.f # "der" THEN NotAllowed(s)
    ELSE LET s1 == Pop(s)
             fr == [Top(s1) EXCEPT !.shelf = t.shelf]
         IN  [rec |-> [op |-> "tend", o |-> Obs(fr)], s |-> SetTop(s1, fr)]

\* what decoding into a target gives
Outcome(r) == IF r.ok THEN [ok |-> TRUE, v |-> r.v, e |-> <<"", <<>>>>, path |-> <<>>, disp |-> TRUE]
              ELSE [ok |-> FALSE, v |-> <<>>, e |-> r.e, path |-> r.path, disp |-> TRUE]
DoItemT(reg, I, s, ev) ==
    LET fr == Top(s) IN
    IF Lost(fr) THEN NotAllowed(s)
    ELSE IF Left(fr) = 0
    THEN [rec |-> [op |-> "itemt", g |-> ev.g, r |-> "none", o |-> Obs(fr)], s |-> s]
    ELSE LET r == Dec(reg, I, ev.g, ItemTy(fr), fr.cur, fr.c, fr.e)
             q == Sk(reg, I, ItemTy(fr), fr.cur, fr.c, fr.e)
             fr1 == Took(fr, IF r.ok THEN Ok(r.p, <<>>) ELSE Err(r.e[1], Known(q)))
         IN  [rec |-> [op |-> "itemt", g |-> ev.g, r |-> "some", o |-> Obs(fr1)] @@ Outcome(r), s |-> SetTop(s, fr1)]
DoLaterT(reg, I, s, ev) ==
    LET fr == Top(s) IN
    IF ~OnShelf(fr, ev) THEN NotAllowed(s)
    ELSE LET x == fr.shelf[ev.i]
         IN  [rec |-> [op |-> "latert", g |-> ev.g, i |-> ev.i] @@ Outcome(Dec(reg, I, ev.g, x.ty, x.p, x.c, x.q)), s |-> s]

\* the visitor is done with the handle, and what it did not look at is skipped
DoExit(reg, I, s, ev) ==
    LET fr == Top(s)
        q  == IF Lost(fr) THEN EInput ELSE Rest(reg, I, fr)
        s1 == Pop(s)
        rec(n) == [op |-> "exit", do |-> ev.do, n |-> n]
    IN  IF fr.f = "der" THEN NotAllowed(s)
        ELSE CASE ev.do = "ok" -> IF Lost(fr) THEN NotAllowed(s) ELSE [rec |-> rec(0), s |-> Result(s1, Settled(q, fr.shelf))]
               [] ev.do = "prop" -> IF fr.last.r = "none" THEN NotAllowed(s)
                                    ELSE [rec |-> rec(0), s |-> Result(s1, [fr.last EXCEPT !.p = Known(q), !.shelf = <<>>])]
               [] OTHER -> [rec |-> rec(s.nrej + 1), s |-> Result([s1 EXCEPT !.nrej = @ + 1], Rej(s.nrej + 1, Known(q)))]

Works(reg, I, s, ev) ==
    CASE ev.op = "item" -> DoItem(reg, I, s, ev)
      [] ev.op = "next" -> DoNext(reg, I, s)
      [] ev.op = "later" -> DoLater(reg, I, s, ev)
      [] ev.op = "clone" -> DoClone(s, ev)
      [] ev.op = "skip" -> DoSkip(reg, I, s)
      [] ev.op = "tuple" -> DoTuple(s)
      [] ev.op = "tend" -> DoTend(s)
      [] ev.op = "itemt" -> DoItemT(reg, I, s, ev)
      [] ev.op = "latert" -> DoLaterT(reg, I, s, ev)
      [] ev.op = "exit" -> DoExit(reg, I, s, ev)
      [] OTHER -> NotAllowed(s)

\* a bit sequence which is not complete may also be found out before the callback
EarlyBits(reg, I, s, ev) ==
    /\ s.ctl.k = "cb" /\ Def(reg, s.ctl.cl.ty).k = "bits" /\ ev.op \in {"ret", "lret", "done"}
    /\ Sk(reg, I, s.ctl.cl.ty, s.ctl.cl.p, s.ctl.cl.c, s.ctl.cl.e) < 0

Step(reg, I, s0, ev) ==
    LET s == IF EarlyBits(reg, I, s0, ev) THEN Result(s0, Err("input", Unknown)) ELSE s0
        k == s.ctl.k
    IN  CASE k = "start" -> IF ev.op # "start" THEN NotAllowed(s)
                            ELSE [rec |-> [op |-> "start", ty |-> ev.ty, m |-> ev.m, k |-> ev.k],
                                  s |-> Call(reg, I, Push(s, Caller), Cl(ev.ty, 0, FALSE, Len(I), ev.m, ev.k))]
          [] k = "pre" -> IF ev.op = "pre" THEN Asks(reg, I, s) ELSE NotAllowed(s)
          [] k = "cb" -> Calls(reg, I, s, ev)
          [] k = "res" -> Returns(s, ev)
          [] k = "work" -> Works(reg, I, s, ev)
          [] k = "after" -> IF ev.op = "end" THEN [rec |-> [op |-> "end"], s |-> Ctl(s, "end")]
                            ELSE IF ev.op = "later" THEN DoLater(reg, I, s, ev)
                            ELSE IF ev.op = "latert" THEN DoLaterT(reg, I, s, ev)
                            ELSE NotAllowed(s)
          [] OTHER -> NotAllowed(s)

----------------------------------------------------------------------------
\* What of the events bears on a property:
\* the outcome and the cursor always matter
Base == {"op", "r", "pos", "tail", "do", "m", "k", "i", "g", "how"}
Value == {"kind", "v", "len", "empty", "dec", "index", "label", "ok"}
Meta == {"kind", "ty", "name", "path", "fs", "unnamed", "index", "it"}
Fail == {"n", "cls", "e", "path", "disp", "ok"}
Views == {"at", "start", "after", "text", "a1", "a2", "o", "it"}
Counts == {"rem", "empty", "peek"}
\* of what a handle says about itself, what bears on the property
ObsKeys(prop) == IF prop \in {"C01", "C02", "C03", "C05", "C07", "C17", "C23"} THEN Counts ELSE {"about", "rem", "empty", "peek", "start", "und", "s2", "u2"}
KeysFor(prop) ==
    Base \cup
    CASE prop = "C01" -> Value \cup {"name", "fs", "text", "o"}
      [] prop \in {"C02", "C03"} -> Value \cup {"o"}
      [] prop = "C04" -> {}
      [] prop = "C05" -> {"n", "ok", "o"}
      [] prop \in {"C07", "C17"} -> Value \cup Fail \cup {"o"}
      [] prop = "C13" -> Value \cup {"o", "it", "name", "fs", "unnamed"}
      [] prop = "C14" -> Value \cup Fail \cup {"it", "o"}
      [] prop = "C15" -> Fail \cup {"o"}
      [] prop = "C20" -> Value \cup Views
      [] prop = "C21" -> {"kind", "dec", "start", "a1", "a2"}
      [] prop = "C22" -> Value \cup Fail \cup {"at", "ty", "tag", "same"}
      [] prop = "C23" -> {"o"}
      [] prop = "C24" -> Meta
      [] OTHER -> Value \cup Meta \cup Fail \cup Views \cup {"tag", "same"}

=============================================================================
