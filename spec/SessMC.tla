------------------------------- MODULE SessMC -------------------------------
(* Sessions of visitors, explored exhaustively: in small worlds, all that  *)
(* a visitor can do with the handles it gets, up to a number of choices.   *)
(* The law of the property (by its name in the environment) must hold in   *)
(* every state, and each complete session is printed together with all it  *)
(* has to show, to be replayed in the code.                                *)
EXTENDS Worlds, World, Session

Prop == IOEnv.PROP
Dumping == IOEnv.DUMP # ""
Deep == IOEnv.TIER = "thorough"

(***************************************************************************)
(* Worlds.                                                                 *)
(*   ins: the inputs, which are strings of the given bytes; either all     *)
(*        that are values, or (bad) others too                             *)
(*   modes: what visitors the root and the items are decoded with          *)
(*   ops, gs: what is done with handles, and the targets for items         *)
(*   rej: do visitors reject (in callbacks, at the end of handles)?        *)
(*   fuel: how many such choices a session has                             *)
(***************************************************************************)
Norm == {<<"norm", 0>>}
Wo(reg, tys, bytes, max, bad) ==
    [reg |-> reg, tys |-> tys, bytes |-> bytes, max |-> max, bad |-> bad, more |-> {},
     start |-> Norm, modes |-> Norm, ops |-> {"item", "next", "skip"}, gs |-> {}, rej |-> FALSE, hows |-> {"decode"}, fuel |-> 4, dfuel |-> 5]
P(x, path) == [x EXCEPT !.path = path]

Small ==
  <<Pr("u8"), Sq(0), Ar(0, 2), Tu(<<0, 0>>), Co(<<F("a", 0), F("b", 0)>>),                              \* 0..4
    Va(<<Vr("Some", 1, <<F("", 0)>>), Vr("None", 0, <<>>), Vr("Two", 2, <<F("a", 0), F("b", 0)>>)>>),    \* 5
    Cp(0), Sq(6), Co(<<F("a", 6), F("", 1), F("b", 0)>>), Sq(4), Tu(<<1, 5>>), Sq(5), Ar(1, 2),          \* 6..12
    Co(<<F("a", 0)>>), Cp(13), Tu(<<14, 0>>), Co(<<F("", 13), F("b", 14)>>), Tu(<<>>), Sq(17),           \* 13..18
    Co(<<F("a", 3), F("b", 7)>>), Pr("bool"), Co(<<F("a", 20), F("b", 0), F("c", 20)>>), Tu(<<20, 20>>), \* 19..22
    Sq(20), Va(<<Vr("One", 1, <<F("a", 20), F("b", 20)>>), Vr("Two", 0, <<F("", 23)>>)>>), Sq(21),       \* 23..25
    Tu(<<13>>), Cp(26), Tu(<<27, 27>>), Sq(27), Co(<<F("a", 27), F("", 22)>>), Ar(20, 3), Sq(22)>>       \* 26..32
Stringy ==
  <<Pr("str"), Tu(<<0, 0>>), Sq(0), Co(<<F("a", 0), F("b", 2)>>), Pr("u8"), Tu(<<4, 0, 4>>), Ar(0, 2), Va(<<Vr("Some", 1, <<F("", 0)>>), Vr("None", 0, <<>>)>>),
    Pr("u256"), Pr("i256"), Tu(<<4, 8, 0>>), Sq(9), Bi(1, FALSE), Bi(2, TRUE), Tu(<<12, 4>>), Sq(13)>>
Named ==
  <<Pr("u8"), P(Co(<<F("a", 0), F("b", 0)>>), <<NameNo("my_crate"), NameNo("Foo")>>), P(Co(<<F("", 1), F("a", 3)>>), <<NameNo("Bar")>>), Cp(4),
    P(Co(<<F("value", 0)>>), <<NameNo("my_crate"), NameNo("deeper"), NameNo("Wrapper")>>), Va(<<Vr("One", 3, <<F("", 1)>>), Vr("Two", 0, <<F("a", 3), F("b", 0)>>), Vr("Unit", 9, <<>>)>>),
    Sq(5), Tu(<<4, 3, 5>>), Ar(4, 2), Co(<<F("x1", 8), F("", 5), F("x2", 0)>>)>>
Strays ==
  <<Pr("u8"), Tu(<<0, 0>>), Sq(0), Co(<<F("a", 0), F("b", 2)>>), Va(<<Vr("One", 1, <<F("", 0), F("", 0)>>), Vr("Two", 0, <<>>)>>), Cp(0), Tu(<<5, 0>>),
    Co(<<F("a", 0)>>), Cp(7), Ar(0, 2), Sq(1), Pr("str"), Bi(1, FALSE), Tu(<<11, 12>>), Pr("bool"), Pr("u256"), Pr("char")>>

Ks(ms, ks) == {<<m, k>> : m \in ms, k \in ks}

Endless ==
  <<Tu(<<>>), Sq(0), Co(<<>>), Sq(2), Tu(<<1, 3>>), Pr("u8"), Co(<<F("a", 1), F("b", 5)>>), Sq(1), Ar(5, 0), Sq(8), Tu(<<9, 5>>), Ar(0, 3), Sq(11)>>
Packed ==
  <<Pr("u8"), Cp(0), Co(<<F("a", 0)>>), Cp(2), Tu(<<2>>), Cp(4), Co(<<F("", 1), F("", 0)>>), Tu(<<1, 3, 5>>), Sq(1), Sq(3), Ar(5, 2), Co(<<F("a", 5), F("b", 1)>>),
    Va(<<Vr("Some", 1, <<F("", 3)>>), Vr("None", 0, <<>>), Vr("Two", 2, <<F("a", 1), F("b", 5)>>)>>), Co(<<F("", 3)>>), Cp(13), Sq(14), Tu(<<14, 0, 14>>), Sq(12), Co(<<F("a", 10), F("", 8)>>),
    Co(<<>>), Cp(19), Co(<<F("a", 19)>>), Cp(21), Tu(<<20, 0, 22>>), Tu(<<>>), Cp(24), Cp(5), Co(<<F("", 25), F("b", 0)>>), Cp(23)>>
Bitty == <<Bi(1, FALSE), Bi(1, TRUE), Bi(2, FALSE), Bi(4, TRUE), Pr("u8"), Tu(<<0, 4>>), Sq(1), Co(<<F("a", 2), F("b", 0)>>), Ar(0, 2), Bi(8, FALSE), Tu(<<3, 4>>), Va(<<Vr("Some", 1, <<F("", 1)>>), Vr("None", 0, <<>>)>>)>>

Worlds_ ==
  CASE Prop \in {"C01", "C02"} ->
        <<[Wo(Small, 0..32, {0, 1, 4}, IF Prop = "C01" THEN 5 ELSE 4, FALSE) EXCEPT !.ops = IF Prop = "C01" THEN {"item"} ELSE {"item", "next", "later"}, !.fuel = IF Prop = "C01" THEN 4 ELSE 3, !.dfuel = 4],
          [Wo(Endless, 1..12, {0, 4, 8}, 3, FALSE) EXCEPT !.ops = {"item", "next", "later"}, !.fuel = 4],
          [Wo(Bitty, 0..11, {0, 1, 4, 255}, 3, FALSE) EXCEPT !.ops = {"item", "next", "later"}, !.hows = {"decode", "again"}, !.fuel = 3]>>
    [] Prop = "C04" ->
        <<[Wo(Small, 0..32, {0, 1, 8, 255}, 2, TRUE) EXCEPT !.ops = {"item", "next", "skip", "later", "tuple", "itemt"}, !.gs = Ts({"u8", "[u8; 2]"}), !.rej = TRUE, !.fuel = 2, !.dfuel = 3,
               !.modes = Norm \cup Ks({"none", "ign"}, {0})],
          [Wo(Endless, 1..12, {0, 3, 255}, 2, TRUE) EXCEPT !.ops = {"item", "next", "skip"}, !.fuel = 3,
               !.more = {<<3, 255, 255, 255, 255>>, <<19>> \o Ones(8), <<3, 255, 255, 255, 255, 3, 255, 255, 255, 255>>}]>>
    [] Prop = "C05" ->
        <<[Wo(Small, 0..32, {0, 1, 2, 4}, 3, TRUE) EXCEPT !.ops = {"item", "next", "skip", "later"}, !.fuel = 3, !.dfuel = 4],
          [Wo(Stringy, (0..7) \cup {12, 13, 14, 15}, {0, 4, 8, 65, 195}, 3, TRUE) EXCEPT !.ops = {"item", "next"}, !.fuel = 3, !.dfuel = 4]>>
    [] Prop = "C07" ->
        <<[Wo(Packed, 0..28, {0, 4, 8}, 4, FALSE) EXCEPT !.ops = {"item", "next", "later", "latert", "itemt", "tuple"}, !.gs = Ts({"Any", "(u8,)", "One<u8>", "Box<u8>"}), !.fuel = 2, !.dfuel = 3],
          [Wo(Packed, 6..28, {0, 4}, 3, FALSE) EXCEPT !.ops = {"item", "next", "later", "tuple", "skip"}, !.modes = Norm \cup Ks({"vwce"}, {0}), !.fuel = 3, !.dfuel = 4],
          [Wo(Packed, 1..28, {0, 1, 4, 8}, 2, TRUE) EXCEPT !.ops = {"item", "next", "later", "itemt", "skip"}, !.gs = Ts({"Any", "(u8,)"}), !.modes = Norm \cup Ks({"ign"}, {0}), !.fuel = 3, !.dfuel = 4]>>
    [] Prop = "C17" ->
        <<[Wo(Small, 0..32, {0, 1, 4}, 4, FALSE) EXCEPT !.start = Ks({"vwce"}, {0}), !.modes = Ks({"vwce"}, {0}), !.ops = {"item", "next", "later", "tuple", "itemt"}, !.gs = Ts({"u8", "Box<u8>"}), !.rej = TRUE, !.fuel = 2, !.dfuel = 3],
          [Wo(Packed, 0..28, {0, 4, 8}, 3, TRUE) EXCEPT !.start = Ks({"vwce"}, {0}), !.modes = Ks({"vwce", "norm"}, {0}), !.ops = {"item", "next", "later", "tuple"}, !.fuel = 3, !.dfuel = 4],
          [Wo(Stringy, 0..15, {0, 4, 8, 65, 195}, 3, TRUE) EXCEPT !.start = Ks({"vwce"}, {0}), !.modes = Ks({"vwce"}, {0}), !.hows = {"decode", "look", "again"}, !.rej = TRUE, !.fuel = 2, !.dfuel = 3],
          [Wo(Strays, 0..16, {0, 1, 4}, 3, FALSE) EXCEPT
              !.start = Ks({"vtake", "vtakerej", "vdecl"}, {0, 1, 3}) \cup Ks({"vign", "vfall", "vnone", "vwce"}, {0}),
              !.modes = Ks({"vtake", "vtakerej", "vdecl"}, {1}) \cup Ks({"vign", "vfall", "vnone", "vwce"}, {0}),
              !.ops = {"item", "later", "next"}, !.rej = TRUE, !.fuel = 2, !.dfuel = 3,
              !.more = {Zeros(32), <<65, 0, 0, 0>>, Ones(32)}]>>
    [] Prop = "C21" ->
        <<[Wo(Bitty, 0..11, {0, 1, 4, 28, 32, 36, 170}, 3, FALSE) EXCEPT !.hows = {"decode", "look", "again"}, !.ops = {"item", "next", "later", "skip"}, !.fuel = 3, !.dfuel = 4],
          [Wo(Bitty, 0..11, {0, 1, 4, 32, 68}, 2, TRUE) EXCEPT !.hows = {"decode", "look", "again"}, !.ops = {"item", "next"}, !.rej = TRUE, !.fuel = 2,
               !.more = {<<3, 255, 255, 255, 255>>, <<254, 255, 255, 255>>, <<252>> \o Zeros(8), <<4 * 33, 0>> \o Zeros(8), <<1, 1>> \o Zeros(7)}]>>
    [] Prop = "C23" ->
        <<[Wo(Endless, 1..12, {0, 4}, 2, FALSE) EXCEPT !.ops = {"item", "next", "skip", "later", "tuple"}, !.modes = Norm \cup Ks({"ign"}, {0}), !.fuel = 4,
               !.more = {<<3, 255, 255, 255, 255>>, <<19>> \o Ones(8), <<254, 255, 255, 255>>, <<19>> \o Ones(8) \o <<0>>, <<19>> \o Ones(8) \o <<4, 0>>, <<8>> \o <<19>> \o Ones(8) \o <<0>>,
                         <<19>> \o Ones(8) \o <<19>> \o Ones(8), <<15, 255, 255, 255, 255, 127>>, <<8, 4, 15, 255, 255, 255, 255, 127, 4>>}]>>
    [] Prop = "C03" ->
        <<[Wo(Small, 0..32, {0, 1, 4}, 4, FALSE) EXCEPT
              !.start = Norm \cup Ks({"fall", "none", "ign"}, {0}), !.modes = Norm \cup Ks({"ign", "none"}, {0}), !.rej = TRUE, !.fuel = 3, !.dfuel = 4]>>
    [] Prop = "C13" ->
        <<[Wo(Small, 1..32, {0, 1, 4, 8}, 3, FALSE) EXCEPT !.ops = {"item", "next", "skip", "tuple"}, !.modes = Ks({"ign"}, {0}), !.fuel = 4],
          [Wo(Small, {8, 10, 19, 16, 24, 30, 9, 12}, {0, 1, 4}, 4, FALSE) EXCEPT !.ops = {"item", "next", "skip", "tuple"}, !.fuel = 4],
          [Wo(Small, {21, 22, 23, 24, 25, 31, 32}, {0, 1, 2, 4, 8}, 3, TRUE) EXCEPT !.ops = {"item", "next", "skip", "tuple"}, !.modes = Ks({"ign"}, {0}), !.fuel = 4]>>
    [] Prop = "C14" ->
        <<[Wo(Small, (1..32) \ {1, 2, 11, 12, 17, 18, 23}, {0, 1, 4}, 3, FALSE) EXCEPT !.ops = {"next", "later", "latert", "clone"}, !.gs = Ts({"u8", "Any", "(u8,)", "One<u8>"}), !.modes = Norm \cup Ks({"ign", "none"}, {0}), !.fuel = 3, !.dfuel = 4],
          [Wo(Small, {21, 22, 23, 24, 25, 31, 32, 28, 29, 30}, {0, 1, 4, 2}, 3, TRUE) EXCEPT !.ops = {"next", "later", "latert", "item"}, !.gs = Ts({"bool", "Any", "U1"}), !.modes = Norm \cup Ks({"fall"}, {0}), !.rej = TRUE, !.fuel = 3, !.dfuel = 4],
          [Wo(Small, {8, 15, 16, 19, 30, 28}, {0, 1, 4}, 5, FALSE) EXCEPT !.ops = {"next", "later", "item"}, !.modes = Norm \cup Ks({"take", "decl"}, {1}), !.fuel = 3, !.dfuel = 5]>>
    [] Prop = "C15" ->
        <<[Wo(Small, 1..32, {0, 1, 4}, 4, FALSE) EXCEPT !.rej = TRUE, !.modes = Norm \cup Ks({"none"}, {0}), !.fuel = 3, !.dfuel = 4],
          [Wo(Small, 20..32, {0, 1, 2, 4, 8}, 4, TRUE) EXCEPT !.rej = TRUE, !.fuel = 2, !.dfuel = 3, !.modes = Norm \cup Ks({"none"}, {0})]>>
    [] Prop = "C20" ->
        <<[Wo(Stringy, (0..7) \cup {12, 13, 14, 15}, {0, 4, 8, 65, 195, 169}, 4, FALSE) EXCEPT !.ops = {"item", "next", "tuple", "skip", "later"}, !.hows = {"look", "again"}, !.fuel = 3, !.dfuel = 5],
          [Wo(Stringy, 8..11, {0, 4, 65}, 3, FALSE) EXCEPT !.ops = {"item", "next", "tuple", "later"}, !.fuel = 3,
              !.more = {[i \in 1..32 |-> i], <<7>> \o [i \in 1..32 |-> 255 - i] \o <<4, 66>>, <<8>> \o [i \in 1..64 |-> i], <<4>> \o Ones(32) \o <<1>>}]>>
    [] Prop = "C22" ->
        <<[Wo(Strays, 0..16, {0, 1, 4}, 4, FALSE) EXCEPT
              !.start = Norm \cup Ks({"take", "takerej", "decl"}, {0, 1, 3}) \cup Ks({"fall", "none", "vwce"}, {0}),
              !.modes = Norm \cup Ks({"take", "takerej", "decl", "vdecl"}, {0, 1}) \cup Ks({"fall", "none", "vwce", "vfall"}, {0}),
              !.ops = {"item", "next", "later"}, !.rej = TRUE, !.fuel = 2, !.dfuel = 3,
              !.more = {Zeros(32), <<65, 0, 0, 0>>, Ones(32)}]>>
    [] Prop = "C24" ->
        <<[Wo(Named, 0..9, {0, 3, 4, 9}, 5, FALSE) EXCEPT !.ops = {"item", "next", "later", "tuple"}, !.fuel = 3, !.dfuel = 4]>>

----------------------------------------------------------------------------
VARIABLES w, ty, in,
          s, prev,      \* the session's state, and the one before
          log, fuel,
          World_        \* Worlds_[w] (so that it is computed only once)
vars == <<w, ty, in, s, prev, log, fuel, World_>>
view == <<w, ty, in, log>>

Reg == World_.reg
Strings(bytes, n) == UNION {[1..m -> bytes] : m \in 0..n}
Inputs(x, t) ==
    {i \in Strings(x.bytes, x.max) \cup x.more :
        LET q == Sk(x.reg, i, t, 0, FALSE, Len(i)) IN
        \* values with at most one byte after them, and for others all bytes matter
        IF q >= 0 THEN q = Len(i) \/ (q + 1 = Len(i) /\ i[Len(i)] = 1)
        ELSE x.bad /\ (Len(i) = x.max \/ q = EInput)}

Dos(go) == IF go /\ World_.rej THEN {"ok", "rej"} ELSE {"ok"}
Ev(op) == [op |-> op, m |-> "", k |-> 0, do |-> "", i |-> 0, g |-> 0, how |-> ""]
Decodings(op, n) == {[Ev(op) EXCEPT !.m = m[1], !.k = m[2], !.i = i] : m \in World_.modes, i \in 1..n}
\* (what is on the shelf longest is of least interest)
Later(fr) == (IF "later" \in World_.ops THEN Decodings("later", Len(fr.shelf)) ELSE {})
             \cup (IF "latert" \in World_.ops THEN {[Ev("latert") EXCEPT !.i = i, !.g = g] : i \in 1..Len(fr.shelf), g \in World_.gs} ELSE {})
\* what a visitor may choose next
Choices ==
    LET k == s.ctl.k
        go == fuel > 0
    IN  CASE k = "start" -> {[Ev("start") EXCEPT !.m = m[1], !.k = m[2]] @@ [ty |-> ty] : m \in World_.start}
          [] k = "pre" -> {Ev("pre")}
          [] k = "cb" -> LET d == Def(Reg, s.ctl.cl.ty)
                             ops == IF s.ctl.cl.m = "fall" THEN {"unexp"}
                                    ELSE IF d.k = "bits" THEN {"bits"}
                                    ELSE IF d.k = "prim" THEN {IF d.p = "str" THEN "str" ELSE "prim"} ELSE {"open"}
                         IN  {[Ev(op) EXCEPT !.do = do, !.how = how] : op \in ops, do \in IF ops = {"open"} THEN {""} ELSE Dos(go), how \in IF ops = {"bits"} THEN World_.hows ELSE {""}}
          [] k = "res" -> LET x == Top(s).wait[1] IN {Ev(IF x = "item" THEN "ret" ELSE IF x = "later" THEN "lret" ELSE "done")}
          [] k = "work" ->
               LET fr == Top(s)
                   here(op) == op \in World_.ops /\ go
                   known == ~Lost(fr)
               IN  (IF here("item") /\ known THEN Decodings("item", 1) ELSE {})
                   \cup (IF here("next") /\ known THEN {Ev("next")} ELSE {})
                   \cup (IF here("skip") /\ known THEN {Ev("skip")} ELSE {})
                   \cup (IF here("clone") THEN {[Ev("clone") EXCEPT !.i = i] : i \in 1..Len(fr.shelf)} ELSE {})
                   \cup (IF here("tuple") /\ fr.f \in {"comp", "var"} THEN {Ev("tuple")} ELSE {})
                   \cup (IF here("itemt") /\ known THEN {[Ev("itemt") EXCEPT !.g = g] : g \in World_.gs} ELSE {})
                   \cup (IF go THEN Later(fr) ELSE {})
                   \cup (IF fr.f = "der" THEN {Ev("tend")}
                         ELSE (IF known THEN {[Ev("exit") EXCEPT !.do = "ok"]} ELSE {})
                              \cup (IF fr.last.r # "none" THEN {[Ev("exit") EXCEPT !.do = "prop"]} ELSE {})
                              \cup (IF go /\ World_.rej THEN {[Ev("exit") EXCEPT !.do = "rej"]} ELSE {}))
          [] k = "after" -> {Ev("end")} \cup (IF go THEN Later(Top(s)) ELSE {})
          [] OTHER -> {}

Costs(ev) == ev.op \in {"item", "next", "skip", "clone", "tuple", "itemt", "later", "latert"} \/ ev.do = "rej"

BadBits == s.ctl.k = "cb" /\ Def(Reg, s.ctl.cl.ty).k = "bits" /\ Sk(Reg, in, s.ctl.cl.ty, s.ctl.cl.p, s.ctl.cl.c, s.ctl.cl.e) < 0

Init == /\ LET ws == Worlds_ IN \E i \in 1..Len(ws) : w = i /\ World_ = ws[i] /\ fuel = IF Deep THEN ws[i].dfuel ELSE ws[i].fuel
        /\ ty \in World_.tys
        /\ in \in Inputs(World_, ty)
        /\ s = Initially /\ prev = Initially /\ log = <<>>
Next == /\ ~BadBits
        /\ \E ev \in Choices :
             LET st == Step(Reg, in, s, ev) IN
             /\ st.rec.op # "nothing"
             /\ s' = st.s /\ prev' = s /\ log' = Append(log, st.rec)
             /\ fuel' = IF Costs(ev) THEN fuel - 1 ELSE fuel
        /\ UNCHANGED <<w, ty, in, World_>>

----------------------------------------------------------------------------
\* laws

Whole == Sk(Reg, in, ty, 0, FALSE, Len(in))
Last == log[Len(log)]
Did(op) == log # <<>> /\ Last.op = op
Moved == \E i \in 1..Len(log) : log[i].op \in {"start", "item", "later"} /\ log[i].m \in {"take", "takerej", "decl", "vtake", "vtakerej", "vdecl"}

\* nothing is ever asked for that the specification has no answer to
LawSound == s.ctl.k # "end" => \E ev \in Choices : Step(Reg, in, s, ev).rec.op # "nothing"

\* C03: a value's end is where the decoding of it ends
LawEnd == (Did("done") /\ Whole >= 0 /\ ~Moved) => Last.pos = Whole
\* and the same goes for each item
LawItems == \A f \in 1..Len(s.fr) :
    LET fr == s.fr[f] IN
    (fr.f \notin {"top", "der"} /\ ~Moved /\ Sk(Reg, in, fr.ty, fr.start, fr.c, Len(in)) >= 0) => Rest(Reg, in, fr) = Sk(Reg, in, fr.ty, fr.start, fr.c, Len(in))

\* C13: a handle is where it was opened with as many items as it has given out
First(fr) == IF fr.f = "seq" THEN Compact(in, fr.start, fr.e, 8)[3] ELSE IF fr.f = "var" THEN fr.start + 1 ELSE fr.start
All(fr) == IF fr.f = "seq" THEN Count(Compact(in, fr.start, fr.e, 8)[2]) ELSE IF fr.f = "arr" THEN Def(Reg, fr.ty).n ELSE Len(fr.fs)
LawAccount == \A f \in 1..Len(s.fr) :
    LET fr == s.fr[f]
        n  == All(fr) - Left(fr)
    IN  (fr.f # "top" /\ ~Moved /\ ~Lost(fr) /\ fr.fail = 0 /\ All(fr) < Huge) =>
        /\ n >= 0
        /\ fr.wait[1] # "item" =>
           (IF IsList(fr) THEN SkN(Reg, in, fr.t, n, First(fr), fr.e) ELSE SkFs(Reg, in, SubSeq(fr.fs, 1, n), 1, First(fr), fr.c, fr.e)) = fr.cur
\* what a handle gave out by iterating only is one after the other
LawNext == (Did("next") /\ Last.r = "ok" /\ ~Moved) =>
    LET x == Top(s).shelf[Len(Top(s).shelf)] IN x.p = Top(prev).cur /\ x.q = Top(s).cur /\ x.name = Peek(Top(prev)) /\ x.q = Sk(Reg, in, x.ty, x.p, x.c, Len(in))

\* C14: decoding in a part of the input is as decoding in all of it, at the same place
LawStored ==
    /\ \A f \in 1..Len(s.fr) : \A i \in 1..Len(s.fr[f].shelf) :
        LET x == s.fr[f].shelf[i] IN
        /\ Sk(Reg, in, x.ty, x.p, x.c, Len(in)) = x.q /\ Sk(Reg, in, x.ty, x.p, x.c, x.q) = x.q
        /\ \A g \in World_.gs : Dec(Reg, in, g, x.ty, x.p, x.c, x.q) = Dec(Reg, in, g, x.ty, x.p, x.c, Len(in))
    \* and it leaves the handle alone
    /\ Did("lret") => [Top(s) EXCEPT !.shelf = <<>>, !.wait = <<>>] = [Top(prev) EXCEPT !.shelf = <<>>, !.wait = <<>>]

\* C15: rejections get to the caller, and handles with fields are of no use after a failure
LawReject ==
    /\ (Did("exit") /\ Last.do = "rej") => s.ctl.r.r = "rej" /\ s.ctl.r.n = s.nrej
    /\ (Did("exit") /\ Last.do = "prop") => s.ctl.r.r = Top(prev).last.r /\ s.ctl.r.n = Top(prev).last.n /\ s.ctl.r.cls = Top(prev).last.cls
    /\ (Did("exit") /\ Last.do = "ok") => (s.ctl.r.r = "ok" <=> Rest(Reg, in, Top(prev)) >= 0)
    /\ (log # <<>> /\ Last.op \in {"prim", "str", "unexp"} /\ Last.do = "rej") => s.ctl.r.r = "rej" /\ s.ctl.r.n = Last.n
    /\ (Did("ret") /\ Last.r \in {"err", "rej"} /\ ~Lost(Top(s))) =>
         Left(Top(s)) = IF IsList(Top(s)) THEN Left(Top(prev)) - 1 ELSE 0

\* C20: text and handles are parts of the input, within the part they were decoded from
Part(x) == x[1] = -1 \/ (x[1] >= 0 /\ x[1] + x[2] <= Len(in))
LawViews ==
    /\ Did("str") => Part(Last.start) /\ Part(Last.after[2]) /\ Part(Last.text[2])
                     /\ ((Last.text[1] = "" /\ Last.len > 0) => Last.text[2][2] = Last.len)
    /\ Did("open") => Part(Last.o.start) /\ Part(Last.o.und) /\ (Last.o.und[1] = -1 \/ Last.o.start[1] + Last.o.start[2] = Last.o.und[1] + Last.o.und[2])

\* C22: who takes over determines the result, and others only their own part of it
LawTake ==
    /\ (Did("pre") /\ prev.ctl.cl.m \in {"take", "takerej"}) =>
        LET cl == prev.ctl.cl IN
        s.ctl.k = "res" /\ s.ctl.r.p = (IF cl.p + cl.k > cl.e THEN cl.e ELSE cl.p + cl.k) /\ s.ctl.r.r = IF cl.m = "take" THEN "ok" ELSE "rej"
    /\ (Did("pre") /\ prev.ctl.cl.m = "norm") => (s.ctl.k = "res" => s.ctl.r.r = "err")
    /\ (Did("done") /\ log[1].m = "none") => Last.r = "err"

\* C24: what callbacks carry
LawMeta == Did("open") =>
    LET d == Def(Reg, Last.ty) IN
    /\ Last.kind = d.k
    /\ d.k = "comp" => Last.path = d.path /\ Last.fs = d.fs
    /\ d.k = "var" => \E i \in 1..Len(d.vs) : d.vs[i].i = in[prev.ctl.cl.p + 1] /\ d.vs[i].n = Last.name /\ d.vs[i].fs = Last.fs

\* C05: nobody who looks at, or skips, all of something malformed accepts it
LawMalformed == (Did("done") /\ Whole < 0 /\ ~Moved) => Last.r # "ok"

\* C04: everything stays within the input
LawWithin == \A f \in 1..Len(s.fr) : LET fr == s.fr[f] IN
    fr.f # "top" => /\ fr.start \in 0..Len(in) /\ fr.cur \in (-1)..Len(in) /\ fr.e <= Len(in)
                    /\ ~Lost(fr) => fr.start <= fr.cur /\ fr.cur <= fr.e

\* C07: what is shown of something compact is the number
LawPacked == (Did("prim") /\ prev.ctl.cl.c) => Last.v[1] = <<"+", Compact(in, prev.ctl.cl.p, Len(in), Width(Last.kind))[2]>>

\* C21: a bit sequence is followed by what follows its last unit
LawBits == (Did("bits") /\ prev.ctl.cl.m = "norm") =>
    LET e == prev.ctl.cl.e
        q == Sk(Reg, in, Last.ty, prev.ctl.cl.p, FALSE, e)
        d == Def(Reg, Last.ty)
        c == Compact(in, prev.ctl.cl.p, e, 4)
    IN  /\ Last.a1 = Last.a2
        /\ q >= 0 => /\ Last.a1 = <<"", Slice(q, e)>> /\ (q - c[3]) % d.w = 0
                     /\ Last.how # "look" => OfInt(Len(Last.dec[2])) = c[2]
        /\ q < 0 => Last.a1[1] = "input"

Law == /\ LawSound
       /\ CASE Prop \in {"C01", "C02", "C23"} -> LawEnd /\ LawItems /\ LawNext
            [] Prop = "C04" -> LawWithin
            [] Prop = "C05" -> LawMalformed
            [] Prop = "C07" -> LawPacked /\ LawEnd /\ LawItems
            [] Prop = "C17" -> LawEnd /\ LawReject
            [] Prop = "C21" -> LawBits /\ LawEnd
            [] Prop = "C03" -> LawEnd /\ LawItems
            [] Prop = "C13" -> LawAccount /\ LawNext
            [] Prop = "C14" -> LawStored /\ LawNext
            [] Prop = "C15" -> LawReject
            [] Prop = "C20" -> LawViews
            [] Prop = "C22" -> LawTake
            [] Prop = "C24" -> LawMeta

----------------------------------------------------------------------------
\* one line for each complete session (all of it evaluated before, since writing is one at a time)
Put(x) == LET t == ToJson(x) \o "\n" IN t # "" /\ Serialize(t, IOEnv.DUMP, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Shown(r) == [k \in DOMAIN r \cap (KeysFor(Prop) \cup IF r.op = "start" THEN {"ty"} ELSE {}) |->
               IF k = "o" THEN [j \in DOMAIN r.o \cap ObsKeys(Prop) |-> r.o[j]] ELSE r[k]]
Dump == (Dumping /\ s.ctl.k = "end") => Put([w |-> w, in |-> in, evs |-> [i \in 1..Len(log) |-> Shown(log[i])]])
DumpWorlds == Dumping => LET ws == Worlds_ IN \A i \in 1..Len(ws) : Put([world |-> i, reg |-> ws[i].reg])
Checked == Law /\ Dump
ASSUME DumpWorlds
=============================================================================
