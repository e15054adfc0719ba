------------------------------- MODULE ConvMC -------------------------------
(* Decoding into targets, explored exhaustively in small worlds.           *)
(*                                                                         *)
(* The state is an input which grows byte by byte; in each state all types *)
(* of the world are decoded into all of its targets.  The law of the       *)
(* property (by the name in the environment) must hold in every state, and *)
(* what is expected of the code is printed, to be replayed against it.     *)
EXTENDS Worlds, World

Prop == IOEnv.PROP
Dumping == IOEnv.DUMP # ""
Deep == IOEnv.TIER = "thorough"

\* the length of inputs (after the prefixes) for the two tiers
B(x, quick, thorough) == [x EXCEPT !.max = IF Deep THEN thorough ELSE quick]
Bs(ws, quick, thorough) == [i \in 1..Len(ws) |-> B(ws[i], quick, thorough)]

Ws == CASE Prop \in {"C01", "C02"} ->
             <<B(Basic(0), 3, 4), B(Compacts(0), 2, 3), B(Texts(0), 2, 3), B(Chars(0), 4, 4), B(BitWorld(1), 3, 4), B(BitWorld(2), 2, 3)>>
        [] Prop = "C04" -> <<B([Basic(0) EXCEPT !.gs = Ts({"Any", "u8", "Vec<u8>", "Option<u8>", "N2", "E1", "(u8, u8)", "BTreeMap<String, u32>", "[u8; 2]", "Duration", "String", "Bits", "(u8,)"})], 3, 4),
                             B(BadTypes(0), 4, 5)>>
        [] Prop = "C05" -> <<B(Basic(0), 3, 4), B(BadTypes(0), 3, 5), B(Compacts(0), 2, 3), B(Texts(0), 3, 4), B(Chars(0), 4, 4), B(BitWorld(1), 3, 4), B(BitWorld(4), 2, 3)>>
        [] Prop = "C06" -> NumWorlds(0)
        [] Prop = "C07" -> Bs(CompactWorlds(0), 4, 5)
        [] Prop = "C08" -> Bs(WrapWorlds(0), 4, 6)
        [] Prop = "C09" -> <<B(ListWorlds(0)[1], 4, 5), B(ListWorlds(0)[2], 2, 2)>>
        [] Prop = "C10" -> Bs(StructWorlds(0), 4, 6) \o Bs(VoidWorlds(0), 3, 4)
        [] Prop = "C11" -> Bs(EnumWorlds(0), 4, 6)
        [] Prop = "C12" -> Bs(SkipWorlds(0), 4, 6)
        [] Prop = "C16" -> Bs(PathWorlds(0), 4, 5)
        [] Prop = "C17" -> Bs(PointerWorlds(0), 3, 4)
        [] Prop = "C18" -> <<B(TupleWorlds(0)[1], 4, 6), B(TupleWorlds(0)[2], 4, 5), B(VoidWorlds(0)[1], 3, 4)>>
        [] Prop = "C19" -> <<B([StructWorlds(0)[1] EXCEPT !.gs = {g \in @ : Tgts[g].k \in {"struct"}} \cup Ts({"()", "(u8, u8)", "(u8, bool)", "(Any, Any)", "(u8, (), bool)"})], 4, 6),
                             B([SkipWorlds(0)[1] EXCEPT !.gs = Ts({"S1", "S2", "SAll", "SU1", "SU2", "SU3"})], 4, 5),
                             B(VoidWorlds(0)[1], 3, 4)>>
        [] Prop = "C21" -> Bs(<<BitWorld(1), BitWorld(2), BitWorld(4), BitWorld(8)>>, 3, 4)
        \* (only skipped, never decoded, since that makes values of all items)
        [] Prop = "C23" -> <<B(Widths(0), 3, 4), [Widths(0) EXCEPT !.pres = {<<2, 0, 1, 0>>, <<254, 255, 255, 255>>, <<3, 255, 255, 255, 255>>, <<19>> \o Ones(8)}, !.max = IF Deep THEN 4 ELSE 3]>>
        [] Prop = "C25" -> Bs(MapWorlds(0), 4, 6)

VARIABLES w, in,
          World_      \* the world, Ws[w] (so that it is computed only once)
vars == <<w, in, World_>>
view == <<w, in>>

Reg == World_.reg
D(t, g) == Dec(Reg, in, g, t, 0, FALSE, Len(in))
S(t) == Sk(Reg, in, t, 0, FALSE, Len(in))
Less == SubSeq(in, 1, Len(in) - 1)
AnyT == T("Any")
HasBits(reg) == \E i \in 1..Len(reg) : reg[i].k = "bits"

\* the same outcome, though perhaps elsewhere
Alike(a, b) == IF a.ok THEN b.ok /\ a.v = b.v ELSE ~b.ok /\ a.e = b.e /\ a.path = b.path

----------------------------------------------------------------------------
\* C01: what is shown re-encodes to what was consumed
LawRead ==
    \A t \in World_.tys :
        LET r == D(t, AnyT) IN
        r.ok => LET x == Enc(Reg, t, FALSE, r.v, 1) IN
                /\ x[2] = Len(r.v) + 1
                /\ Len(x[1]) = r.p
                /\ IF HasBits(Reg) THEN Dec(Reg, x[1], AnyT, t, 0, FALSE, Len(x[1])) = r
                   ELSE x[1] = View(in, 0, r.p)

\* C02: a success stays the same with another byte after it, and ends where skipping ends
LawTail ==
    \A t \in World_.tys, g \in World_.gs :
        LET r == D(t, g) IN
        /\ r.ok => r.p = S(t) /\ r.p <= Len(in)
        /\ Len(in) > 0 => LET o == Dec(Reg, Less, g, t, 0, FALSE, Len(Less)) IN
                          /\ o.ok => r = o
                          /\ (r.ok /\ r.p < Len(in)) => o = r

\* C04: there is always an outcome, within the input
LawTotal ==
    \A t \in World_.tys, g \in World_.gs :
        LET r == D(t, g) IN
        /\ IF r.ok THEN r.p \in 0..Len(in) ELSE r.e[1] \in STRING
        /\ S(t) <= Len(in)
        /\ S(t) < -4 => IF S(t) <= -1000000000 THEN -1000000000 - S(t) \notin 0..(Len(World_.reg) - 1)
                         ELSE S(t) <= -1000 /\ (-1000 - S(t)) \div 2 < Len(in)

\* C05: no prefix of a value is one; readers of everything are no laxer than skipping, and only
\* text makes a difference between them
LawStrict ==
    \A t \in World_.tys :
        LET r == D(t, AnyT)
            q == S(t)
        IN  /\ r.ok => q = r.p
            /\ (q >= 0 /\ ~r.ok) => r.e[1] = "utf8"
            /\ q >= 0 => \A n \in 0..(q - 1) :
                 /\ Sk(Reg, SubSeq(in, 1, n), t, 0, FALSE, n) < 0
                 /\ ~Dec(Reg, SubSeq(in, 1, n), AnyT, t, 0, FALSE, n).ok
            /\ r.ok /\ ~HasBits(Reg) => Enc(Reg, t, FALSE, r.v, 1)[1] = View(in, 0, r.p)

\* C06: success exactly for the numbers between the target's bounds, which are spelled out here
Top(p) == IF p \in UInts THEN [i \in 1..Width(p) |-> 255]
          ELSE [i \in 1..Width(p) |-> IF i = Width(p) THEN 127 ELSE 255]
Bottom(p) == IF p \in UInts THEN <<"+", <<>>>>
             ELSE <<"-", [i \in 1..Width(p) |-> IF i = Width(p) THEN 128 ELSE 0]>>
LawNumbers ==
    \A t \in World_.tys, g \in World_.gs :
        LET a == D(t, AnyT)
            r == D(t, g)
            x == Tgts[g]
            n == a.v[2]
        IN  IF ~a.ok THEN ~r.ok
            ELSE IF ~NumLess(n, Bottom(x.p)) /\ ~NumLess(<<"+", Top(x.p)>>, n) /\ ~(x.nz /\ n[2] = <<>>)
            THEN r.ok /\ r.v = <<n>>
            ELSE ~r.ok /\ r.e = <<"range" \o n[1], n[2]>>

\* C07: the compact encoding of something and its plain encoding give the same
LawCompact ==
    \A pair \in World_.pairs :
        LET a == D(pair[1], AnyT) IN
        a.ok => LET plain == Enc(Reg, pair[2], FALSE, a.v, 1)[1] IN
                \A g \in World_.gs :
                    Alike(D(pair[1], g), Dec(Reg, plain, g, pair[2], 0, FALSE, Len(plain)))

\* C08: so do wrapped and unwrapped data; other numbers of fields are rejected
SeeThrough == {g \in World_.gs : Tgts[g].k \in SeesThrough}
LawWrapped ==
    /\ \A pair \in World_.pairs, g \in SeeThrough : D(pair[1], g) = D(pair[2], g)
    /\ \A t \in World_.tys, g \in SeeThrough :
        LET d == Reg[t + 1]
            n == IF d.k = "tup" THEN Len(d.ts) ELSE IF d.k = "comp" THEN Len(d.fs) ELSE 1
        IN  n # 1 => ~D(t, g).ok

\* C09: a list target has the items' own values, in order
RECURSIVE EachItem(_, _, _, _)
EachItem(t, g, n, p) ==      \* the values of n items, each decoded on its own; <<>> if one fails
    IF n = 0 THEN <<>>
    ELSE LET r == Dec(Reg, in, g, t, p, FALSE, Len(in)) IN
         IF ~r.ok THEN <<<<>>>>
         ELSE <<r.v>> \o EachItem(t, g, n - 1, Sk(Reg, in, t, p, FALSE, Len(in)))
SeqOk(vs) == Len(vs) = 0 \/ vs[Len(vs)] # <<>>
IsPermOf(ws, vs) == Len(ws) = Len(vs) /\
    \A i \in 1..Len(ws) : Cardinality({j \in 1..Len(ws) : ws[j] = ws[i]}) = Cardinality({j \in 1..Len(vs) : vs[j] = ws[i]})
LawLists ==
    \A t \in World_.tys, g \in World_.gs :
        LET d  == Reg[t + 1]
            x  == Tgts[g]
            r  == D(t, g)
            c  == Compact(in, 0, Len(in), 8)
            n  == IF d.k = "arr" THEN d.n ELSE ToInt(c[2])
            p  == IF d.k = "arr" THEN 0 ELSE c[3]
        IN  (d.k \in {"seq", "arr"} /\ x.k \in {"list", "arr", "heap", "set"} /\ S(t) >= 0 /\ n < 80) =>
            LET vs == EachItem(d.t, x.t, n, p) IN
            IF ~SeqOk(vs) THEN ~r.ok /\ Len(r.path) > 0
            ELSE CASE x.k = "list" -> r.ok /\ r.v = <<<<"[", <<n>>>>>> \o Flatten(vs, 1)
                   [] x.k = "arr" -> (r.ok <=> n = x.n)
                                     /\ (r.ok => r.v = <<<<"[", <<n>>>>>> \o Flatten(vs, 1))
                                     /\ (~r.ok => r.e = <<"len", <<n, x.n>>>>)
                   [] x.k = "heap" -> r.ok /\ r.v[1] = <<"[", <<n>>>>
                   [] x.k = "set" -> r.ok /\ r.v[1][2][1] = Cardinality({vs[i] : i \in 1..n})
                                     /\ \A i \in 1..n : \E k \in 2..Len(r.v) : SubSeq(r.v, k, k + Len(vs[i]) - 1) = vs[i]

\* C10: by name in any order and among others, otherwise by position and count
LawStructs ==
    \A t \in World_.tys, g \in World_.gs :
        LET d == Reg[t + 1]
            x == Tgts[g]
            r == D(t, g)
        IN  (x.k = "struct" /\ d.k \in {"comp", "tup"} /\ S(t) >= 0) =>
            LET fs    == IF d.k = "tup" THEN Unit(d.ts) ELSE d.fs
                named == x.style = "named" /\ d.k = "comp" /\ ~HasUnnamed(fs)
                have  == {fs[i][1] : i \in 1..Len(fs)}
                cuts  == Cuts(Reg, in, fs, 1, 0, FALSE, Len(in))
                \* where the j-th field of the target is in the data
                at(j) == IF named THEN CHOOSE i \in 1..Len(fs) : fs[i][1] = x.fs[j].n ELSE j
                part(j) == Dec(Reg, in, x.fs[j].t, fs[at(j)][2], cuts[at(j)], FALSE, cuts[at(j) + 1])
                n == Len(x.fs)
            IN  IF named /\ \E j \in 1..n : x.fs[j].n \notin have
                THEN ~r.ok /\ (r.e[1] = "field" => r.e[2][1] \notin have)
                ELSE IF ~named /\ Len(fs) # n THEN ~r.ok /\ r.e = <<"len", <<Len(fs), n>>>>
                ELSE /\ r.ok <=> \A j \in 1..n : part(j).ok
                     /\ r.ok => r.v = <<<<"{", <<n>>>>>> \o Flatten([j \in 1..n |-> part(j).v], 1)

\* C11: only the name counts.  Renumbering and reordering the variants changes nothing but the index
Renumber(d) == [d EXCEPT !.vs = [i \in 1..Len(d.vs) |-> [d.vs[Len(d.vs) + 1 - i] EXCEPT !.i = (@ + 101) % 256]]]
Unique(d) == \A i, j \in 1..Len(d.vs) : d.vs[i].i = d.vs[j].i => i = j
LawEnums ==
    \A t \in World_.tys :
        LET d == Reg[t + 1] IN
        (d.k = "var" /\ Unique(d) /\ Len(in) > 0) =>
        LET reg2 == [Reg EXCEPT ![t + 1] = Renumber(d)]
            in2  == [in EXCEPT ![1] = (@ + 101) % 256]
        IN  \A g \in World_.gs :
            LET a == D(t, g)
                b == Dec(reg2, in2, g, t, 0, FALSE, Len(in2))
            IN  (Tgts[g].k # "any") =>
                /\ (a.ok /\ b.ok /\ a = b) \/ (~a.ok /\ ~b.ok /\ a.e[1] = b.e[1] /\ (a.e[1] # "novariant" => a.e = b.e) /\ a.path = b.path)
                /\ (a.ok /\ a.v[1][1] = "var") => a.v[1][2][1] = VariantOf(d, in[1]).n
                /\ (HasVariant(d, in[1]) /\ Tgts[g].k = "enum" /\ ~(\E i \in 1..Len(Tgts[g].vs) : Tgts[g].vs[i].n = VariantOf(d, in[1]).n))
                      => ~a.ok /\ a.e[1] = "variant" /\ a.e[2][1] = VariantOf(d, in[1]).n

\* C12: a field list with skipped fields takes what the list without them takes, and adds defaults
Without(fs) == SelectSeq(fs, LAMBDA f : ~f.skip)
RECURSIVE Parts(_, _, _, _)
Parts(v, i, k, n) == IF k > n THEN <<>> ELSE LET j == Skip1(v, i) IN <<SubSeq(v, i, j - 1)>> \o Parts(v, j, k + 1, n)
LawSkip ==
    \A t \in World_.tys, g \in World_.gs :
        LET x == Tgts[g]
            d == Reg[t + 1]
        IN  (x.k = "struct" /\ d.k \in {"comp", "tup"}) =>
            LET r  == D(t, g)
                fs == IF d.k = "tup" THEN Unit(d.ts) ELSE d.fs
                y  == [x EXCEPT !.fs = Without(@)]
                s  == Finish(Reg, in, t, 0, FALSE, Len(in), CbFields(Reg, in, y, g, fs, 0, FALSE, Len(in), IF d.k = "tup" THEN "tuple" ELSE "composite"))
            IN  /\ r.ok = s.ok
                /\ ~r.ok => r.e = s.e
                /\ r.ok => LET a == Parts(r.v, 2, 1, Len(x.fs))
                               b == Parts(s.v, 2, 1, Len(y.fs))
                               kept == SelectSeq([j \in 1..Len(a) |-> <<x.fs[j].skip, a[j]>>], LAMBDA z : ~z[1])
                           IN  /\ Len(kept) = Len(b) /\ \A j \in 1..Len(b) : kept[j][2] = b[j]
                               /\ \A j \in 1..Len(a) : x.fs[j].skip => a[j] = x.fs[j].d

\* C16: a path leads, from its last location on, to something in the target
RECURSIVE Leads(_, _, _, _)
Leads(g, path, k, depth) ==
    IF k = 0 \/ depth > 12 THEN TRUE
    ELSE LET x == Tgts[g]
             step(s) == path[k] = s
         IN  CASE x.k \in {"wrap", "range", "dur"} -> Leads(x.t, path, k, depth + 1)
               [] x.k \in {"list", "set", "heap", "arr", "hash"} -> (\E i \in 0..20 : step(Idx(i))) /\ Leads(x.t, path, k - 1, depth + 1)
               [] x.k = "opt" -> step("v:Some") /\ Leads(x.t, path, k - 1, depth + 1)
               [] x.k = "res" -> (step("v:Ok") /\ Leads(x.t, path, k - 1, depth + 1)) \/ (step("v:Err") /\ Leads(x.e, path, k - 1, depth + 1))
               [] x.k = "map" -> (\E n \in 1..Len(Names) : step(Fld(n))) /\ Leads(x.t, path, k - 1, depth + 1)
               [] x.k = "tup" -> (\E i \in 1..Len(x.ts) : step(Idx(i - 1)) /\ Leads(x.ts[i], path, k - 1, depth + 1))
                                 \/ (Len(x.ts) = 1 /\ Leads(x.ts[1], path, k, depth + 1))
               [] x.k = "struct" -> \E i \in 1..Len(x.fs) : ~x.fs[i].skip
                                       /\ step(IF x.style = "named" THEN Fld(x.fs[i].n) ELSE Idx(i - 1)) /\ Leads(x.fs[i].t, path, k - 1, depth + 1)
               [] x.k = "enum" -> \E j \in 1..Len(x.vs) : \E i \in 1..Len(x.vs[j].fs) : ~x.vs[j].fs[i].skip
                                       /\ step(IF x.vs[j].style = "named" THEN Fld(x.vs[j].fs[i].n) ELSE Idx(i - 1)) /\ Leads(x.vs[j].fs[i].t, path, k - 1, depth + 1)
               [] x.k = "any" -> TRUE
               [] OTHER -> FALSE
LawPaths ==
    \A t \in World_.tys, g \in World_.gs :
        LET r == D(t, g) IN ~r.ok => Leads(g, r.path, Len(r.path), 0)

\* C17: a pointer's outcome is that of what it points to
LawPointers == \A t \in World_.tys : \A x \in World_.alike : D(t, x[1]) = D(t, x[2])

\* C18: exact arity
LawTuples ==
    \A t \in World_.tys, g \in World_.gs :
        LET x == Tgts[g]
            d == Reg[t + 1]
            r == D(t, g)
            n == IF d.k = "tup" THEN Len(d.ts) ELSE IF d.k = "comp" THEN Len(d.fs) ELSE 0
        IN  /\ (x.k = "tup" /\ d.k \in {"tup", "comp"} /\ S(t) >= 0) =>
                 /\ r.ok => n = Len(x.ts)
                 /\ n # Len(x.ts) => ~r.ok /\ r.e = <<"len", <<n, Len(x.ts)>>>>
            /\ (x.k = "tup" /\ Len(x.ts) = 1 /\ d.k \notin {"tup", "comp"}) =>
                 LET s == D(t, x.ts[1]) IN r.ok = s.ok /\ (r.ok => r.v = <<<<"(", <<1>>>>>> \o s.v) /\ (~r.ok => r = s)
            /\ (x.k \in {"range", "dur"}) => LET s == D(t, x.t) IN
                 /\ r.ok => s.ok
                 /\ (x.k = "range") => r = s
                 /\ (s.ok /\ ~r.ok) => x.k = "dur" /\ r.e[1] = "custom"
                 /\ (x.k = "dur" /\ r.ok) => MagLess(r.v[3][2], OfInt(1000000000))
            /\ (x.k = "phantom") => (r.ok <=> d.k \in {"tup", "comp"} /\ n = 0)

\* C19: decoding from a list of fields
LawFields ==
    \A t \in World_.tys, g \in World_.gs :
        LET d == Reg[t + 1] IN
        d.k = "comp" => LET a == D(t, g)
                            b == DecFields(Reg, in, g, d.fs, 0, Len(in))
                        IN  Alike(a, b) /\ (a.ok => a.p = b.p)

\* C21: the bits are those of the encoding
LawBits ==
    \A t \in World_.tys :
        LET d == Reg[t + 1]
            r == D(t, T("Bits"))
        IN  d.k = "bits" /\ r.ok =>
            LET n == Len(r.v[1][2])
                c == Compact(in, 0, Len(in), 4)
            IN  /\ OfInt(n) = c[2]
                /\ (r.p - c[3]) % d.w = 0
                /\ 8 * (r.p - c[3]) \in n..(n + 8 * d.w - 1)
                /\ LET back == EncBits(r.v[1][2], d.w, d.msb) IN
                   Bits(back, 0, d.w, d.msb, n) = r.v[1][2]

\* C23: skipping looks at no more items than there are bytes (plus one)
LawWork ==
    \A t \in World_.tys :
        LET d == Reg[t + 1]
            c == Compact(in, 0, Len(in), 8)
        IN  (d.k = "seq" /\ c[1]) => WorkN(Reg, in, d.t, ToInt(c[2]), c[3], Len(in)) <= Len(in) + 1

\* C25: the named fields
LawMaps ==
    \A t \in World_.tys, g \in World_.gs :
        LET d == Reg[t + 1]
            x == Tgts[g]
            r == D(t, g)
        IN  x.k = "map" =>
            /\ r.ok /\ d.k = "comp" =>
                       /\ r.p = S(t)
                       /\ r.v[1] = <<"map", <<Cardinality({d.fs[i][1] : i \in 1..Len(d.fs)} \ {0})>>>>
                       /\ \A i \in 1..Len(d.fs) : d.fs[i][1] # 0 =>
                            LET cuts == Cuts(Reg, in, d.fs, 1, 0, FALSE, Len(in))
                                part == <<<<"key", <<d.fs[i][1]>>>>>> \o Dec(Reg, in, x.t, d.fs[i][2], cuts[i], FALSE, Len(in)).v
                            IN  \E k \in 2..Len(r.v) : SubSeq(r.v, k, k + Len(part) - 1) = part
            /\ d.k \notin {"comp", "compact"} => ~r.ok

Law == CASE Prop = "C01" -> LawRead
         [] Prop = "C02" -> LawTail
         [] Prop = "C04" -> LawTotal
         [] Prop = "C05" -> LawStrict
         [] Prop = "C06" -> LawNumbers
         [] Prop = "C07" -> LawCompact
         [] Prop = "C08" -> LawWrapped
         [] Prop = "C09" -> LawLists
         [] Prop = "C10" -> LawStructs
         [] Prop = "C11" -> LawEnums
         [] Prop = "C12" -> LawSkip
         [] Prop = "C16" -> LawPaths
         [] Prop = "C17" -> LawPointers
         [] Prop = "C18" -> LawTuples
         [] Prop = "C19" -> LawFields
         [] Prop = "C21" -> LawBits
         [] Prop = "C23" -> LawWork
         [] Prop = "C25" -> LawMaps
----------------------------------------------------------------------------
\* one line for each state: the outcome of every type into every target
ByFields(t) == Prop = "C19" /\ Reg[t + 1].k = "comp"
Out(t, g) ==
    LET r == IF ByFields(t) THEN DecFields(Reg, in, g, Reg[t + 1].fs, 0, Len(in)) ELSE D(t, g)
    IN  IF r.ok THEN <<g, r.v, r.p>> ELSE <<g, r.e, r.path, 0>>
\* (evaluated before, since writing is one at a time)
Put(x) == LET s == ToJson(x) \o "\n" IN s # "" /\ Serialize(s, IOEnv.DUMP, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Dump == Dumping => Put([w |-> w, in |-> in, rs |-> {<<t, ByFields(t), S(t), {Out(t, g) : g \in World_.gs}>> : t \in World_.tys}])
DumpWorlds == Dumping => \A i \in 1..Len(Ws) : Put([world |-> i, reg |-> Ws[i].reg])

Init == /\ LET ws == Ws IN \E i \in 1..Len(ws) : w = i /\ World_ = ws[i]
        /\ in \in World_.pres
Next == /\ \E p \in World_.pres : Len(in) >= Len(p) /\ Len(in) < Len(p) + World_.max /\ SubSeq(in, 1, Len(p)) = p
        /\ \E b \in World_.bytes : in' = Append(in, b)
        /\ UNCHANGED <<w, World_>>
Checked == Law /\ Dump
ASSUME DumpWorlds
=============================================================================
