------------------------------- MODULE Worlds -------------------------------
(* Small worlds for the model checker: for each property, a few registries *)
(* with the types and targets of interest and the inputs to try, which are *)
(* all strings of the given bytes (after a prefix) up to a length.         *)
(*   pairs: types whose values should be taken alike (for some laws)       *)
EXTENDS Encode

Pr(p) == [k |-> "prim", p |-> p]
Cp(t) == [k |-> "compact", t |-> t]
Sq(t) == [k |-> "seq", t |-> t]
Ar(t, n) == [k |-> "arr", t |-> t, n |-> n]
Tu(ts) == [k |-> "tup", ts |-> ts]
Co(fs) == [k |-> "comp", fs |-> fs, path |-> <<>>]
Va(vs) == [k |-> "var", vs |-> vs, path |-> <<>>]
Vr(n, i, fs) == [n |-> NameNo(n), i |-> i, fs |-> fs]
Bi(w, m) == [k |-> "bits", w |-> w, msb |-> m]
Er == [k |-> "err"]
F(n, t) == <<IF n = "" THEN 0 ELSE NameNo(n), t>>

T(s) == CHOOSE i \in 1..Len(Tgts) : Tgts[i].rust = s
Ts(ss) == {T(s) : s \in ss}
Kind(k) == {i \in 1..Len(Tgts) : Tgts[i].k = k}

\* `pairs` of types and `alike` of targets are for the laws
W(reg, tys, gs, pres, bytes, max) ==
    [reg |-> reg, tys |-> tys, gs |-> gs, pres |-> pres, bytes |-> bytes, max |-> max,
     pairs |-> {}, alike |-> {}]

Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 255]

NumNames == {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
             "NonZero<u8>", "NonZero<u16>", "NonZero<u32>", "NonZero<u64>", "NonZero<u128>",
             "NonZero<i8>", "NonZero<i16>", "NonZero<i32>", "NonZero<i64>", "NonZero<i128>"}

(***************************************************************************)
(* All kinds of types in small, for the properties about every type.       *)
(***************************************************************************)
AllKinds ==
  <<Pr("u8"), Pr("bool"), Sq(0), Ar(0, 2), Tu(<<0, 1>>),                                  \* 0..4
    Co(<<F("a", 0), F("b", 1)>>), Va(<<Vr("Some", 3, <<F("", 0)>>), Vr("None", 0, <<>>)>>),   \* 5, 6
    Cp(0), Sq(1), Bi(1, FALSE), Pr("str"), Co(<<F("a", 0)>>), Cp(11),                      \* 7..12
    Tu(<<>>), Co(<<>>), Sq(13), Sq(6), Pr("u16"), Cp(17), Bi(2, TRUE),                     \* 13..19
    Co(<<F("", 7), F("a", 6), F("", 10)>>), Sq(20), Va(<<Vr("One", 1, <<F("a", 12), F("b", 2)>>),
    Vr("Two", 255, <<F("", 1)>>), Vr("Unit", 2, <<>>)>>), Cp(1), Cp(2), Cp(13), Ar(13, 3), Pr("i8")>>

SmallBytes == {0, 1, 2, 3, 4, 8, 255}
Basic(u) == W(AllKinds, (0..27) \ {15},     \* (15 has no bytes for its items, so C23 is about it)
              Ts({"Any"}), {<<>>}, SmallBytes, 3)
\* everything, for skipping: items with no bytes, with one, with several or none
Widths(u) == W(AllKinds, 0..27, {}, {<<>>}, SmallBytes, 3)
\* with a dangling id and a resolver that fails
BadTypes(u) == W(<<Pr("u8"), Sq(99), Er, Sq(2), Tu(<<0, 99>>), Tu(<<0, 2>>), Va(<<Vr("One", 1, <<F("", 99)>>),
                Vr("Two", 2, <<F("", 0)>>)>>), Cp(99), Cp(2), Ar(99, 0), Ar(2, 1), Co(<<F("a", 2)>>)>>,
              (0..11) \cup {99}, Ts({"Any", "u8", "Vec<u8>", "(u8, u8)", "Option<u8>", "E2", "N1"}), {<<>>}, {0, 1, 2, 4, 8}, 3)
Compacts(u) == W(<<Pr("u8"), Cp(0), Pr("u16"), Cp(2), Pr("u32"), Cp(4), Pr("u64"), Cp(6), Pr("u128"), Cp(8)>>,
              {1, 3, 5, 7, 9}, Ts({"Any", "u8", "u32"}),
              {<<>>, <<3, 255, 255, 255>>, <<3, 0, 0, 0>>, <<7, 0, 0, 0>>, <<11, 0, 0, 0, 0>>, <<15>> \o Zeros(5), <<19>> \o Ones(6),
               <<51>> \o Zeros(14), <<51>> \o Ones(14), <<255>> \o Ones(60)},
              {0, 1, 2, 3, 4, 5, 63, 64, 252, 253, 254, 255}, 3)
Texts(u) == W(<<Pr("str"), Tu(<<0, 0>>)>>, {0, 1}, Ts({"Any", "String", "(String, u32)"}), {<<12>>, <<16, 240>>, <<8>>, <<1, 1>>},
           {0, 65, 127, 128, 143, 144, 159, 160, 191, 193, 194, 224, 237, 240, 244, 255}, 4)
Chars(u) == W(<<Pr("char")>>, {0}, Ts({"Any", "char", "u32"}), {<<>>}, {0, 1, 16, 17, 65, 215, 216, 223, 224, 255}, 4)
BitWorld(w) == W(<<Bi(w, FALSE), Bi(w, TRUE), Tu(<<0, 1>>)>>, {0, 1, 2}, Ts({"Any", "Bits"}),
                 {<<>>, <<4 * (8 * w - 1)>> \o Zeros(w - 1), <<4 * (8 * w) % 256, 0>> \o Zeros(w - 1),
                  <<4 * 9>> \o [i \in 1..(w - 1) |-> 129]},
                 {0, 1, 2, 4, 28, 32, 36, 128, 170, 255}, 3)

(***************************************************************************)
(* C06: numbers                                                            *)
(***************************************************************************)
NumWorlds(u) ==
  <<W(<<Pr("u8"), Pr("i8")>>, {0, 1}, Ts(NumNames), {<<>>}, 0..255, 1),
    W(<<Pr("u16"), Pr("i16")>>, {0, 1}, Ts(NumNames), {<<>>}, {0, 1, 127, 128, 254, 255}, 2),
    W(<<Pr("u32"), Pr("i32")>>, {0, 1}, Ts(NumNames), {<<0>>, <<255>>, <<0, 0>>, <<255, 255>>}, {0, 127, 128, 255}, 3),
    W(<<Pr("u64"), Pr("i64")>>, {0, 1}, Ts(NumNames), {Zeros(6), Ones(6), <<1, 0, 0, 0, 0, 0>>, <<255, 255, 255, 127, 0, 0>>}, {0, 127, 128, 255}, 2),
    W(<<Pr("u128"), Pr("i128")>>, {0, 1}, Ts(NumNames), {Zeros(14), Ones(14), Ones(7) \o <<127>> \o Zeros(6), Zeros(7) \o <<128>> \o Ones(6)}, {0, 127, 128, 255}, 2),
    [Compacts(0) EXCEPT !.gs = Ts(NumNames), !.bytes = {0, 1, 3, 63, 64, 128, 255}, !.max = 2]>>

(***************************************************************************)
(* C07: compact encoding; pairs of a compact type and its plain one        *)
(***************************************************************************)
CompactWorlds(u) ==
  <<[W(<<Pr("u8"), Cp(0), Co(<<F("a", 0)>>), Cp(2), Tu(<<0>>), Cp(4), Tu(<<2>>), Cp(6), Tu(<<1, 0>>), Tu(<<0, 0>>),
         Co(<<F("a", 1), F("b", 3)>>), Co(<<F("a", 0), F("b", 2)>>), Sq(7), Sq(6), Va(<<Vr("Some", 1, <<F("", 5)>>), Vr("None", 0, <<>>)>>),
         Va(<<Vr("Some", 1, <<F("", 4)>>), Vr("None", 0, <<>>)>>)>>,
       {1, 3, 5, 7, 8, 10, 12, 14}, Ts({"u8", "u32", "Box<u8>", "(u8,)", "((u8,),)", "One<u8>", "One<One<u64>>", "U1", "Any", "AnyOwn", "OwnI64",
        "Compact<u32>", "NonZero<u8>", "Vec<u8>", "Option<u8>", "Option<Any>", "(u8, u8)", "N1", "BTreeMap<String, u32>", "BTreeMap<String, One<u8>>",
        "UG<Any, Any>", "Box<(u8,)>", "Vec<Box<u8>>", "(Box<u8>, Compact<u16>)", "(OwnI64,)"}),
       {<<>>}, {0, 1, 4, 8, 252, 255, 2, 3}, 4)
     EXCEPT !.pairs = {<<1, 0>>, <<3, 2>>, <<5, 4>>, <<7, 6>>, <<8, 9>>, <<10, 11>>, <<12, 13>>, <<14, 15>>}]>>

(***************************************************************************)
(* C08: wrappers; pairs of a wrapped and an unwrapped type                 *)
(***************************************************************************)
WrapWorlds(u) ==
  <<[W(<<Pr("u8"), Tu(<<0>>), Co(<<F("a", 1)>>), Co(<<F("", 2)>>), Tu(<<0, 0>>), Tu(<<>>), Co(<<>>), Co(<<F("a", 0), F("b", 0)>>),
         Sq(0), Tu(<<8>>), Co(<<F("value", 9)>>), Va(<<Vr("Some", 1, <<F("", 0)>>), Vr("None", 0, <<>>), Vr("Ok", 2, <<F("a", 2)>>)>>),
         Co(<<F("", 11)>>), Tu(<<12>>), Ar(0, 2), Tu(<<14>>), Sq(2), Tu(<<4>>), Co(<<F("a", 7)>>),
         Pr("bool"), Co(<<F("a", 19)>>), Bi(1, FALSE), Tu(<<21>>), Pr("str"), Tu(<<23>>),
         Va(<<Vr("One", 1, <<F("", 0)>>), Vr("Two", 0, <<F("", 3)>>)>>), Tu(<<25>>)>>,
       0..26, Ts({"u8", "i64", "bool", "String", "Bits", "Vec<u8>", "[u8; 2]", "BTreeSet<u8>", "Option<u8>", "Result<u8, String>", "E2", "NonZero<u8>", "Box<u8>"}),
       {<<>>}, {0, 1, 2, 4, 8}, 3)
     EXCEPT !.pairs = {<<1, 0>>, <<2, 0>>, <<3, 0>>, <<9, 8>>, <<10, 8>>, <<12, 11>>, <<13, 11>>, <<15, 14>>, <<20, 19>>, <<22, 21>>, <<24, 23>>, <<26, 25>>, <<16, 8>>}]>>

(***************************************************************************)
(* C09: lists                                                              *)
(***************************************************************************)
ListWorlds(u) ==
  <<W(<<Pr("u8"), Sq(0), Ar(0, 0), Ar(0, 1), Ar(0, 2), Ar(0, 3), Sq(7), Va(<<Vr("Some", 1, <<F("", 0)>>), Vr("None", 0, <<>>)>>), Pr("i8"), Sq(8), Ar(7, 2),
        Tu(<<0, 0>>), Sq(11), Tu(<<>>), Sq(13), Ar(13, 2), Sq(1)>>,
      (1..6) \cup {9, 10, 12, 15, 16},
      Ts({"Vec<u8>", "VecDeque<u8>", "LinkedList<u16>", "BTreeSet<u16>", "BTreeSet<i8>", "BinaryHeap<u8>", "BinaryHeap<i32>", "[u8; 0]", "[u8; 1]", "[u8; 2]", "[u8; 3]",
          "Vec<Option<u8>>", "[Option<u8>; 2]", "BTreeSet<Option<u8>>", "Vec<()>", "[(); 2]", "BinaryHeap<(u8, u8)>", "Vec<Vec<u16>>", "Vec<NonZero<u8>>", "VecDeque<VecDeque<u8>>"}),
      {<<>>}, {0, 1, 2, 4, 8, 12, 255}, 4),
    W(<<Tu(<<>>), Sq(0), Ar(0, 2), Ar(0, 70), Tu(<<1, 1>>)>>, 0..4, Ts({"Vec<()>", "[(); 2]", "Any", "(Vec<()>, Any)"} \cap {Tgts[i].rust : i \in 1..Len(Tgts)}), {<<>>, <<1>>}, {0, 1, 4, 8, 12, 252, 255}, 2)>>

(***************************************************************************)
(* C10: structs; `pairs` are composites with the same fields otherwise     *)
(* ordered or with more of them                                            *)
(***************************************************************************)
StructWorlds(u) ==
  <<W(<<Pr("u8"), Pr("bool"), Co(<<F("a", 0), F("b", 1)>>), Co(<<F("b", 1), F("a", 0)>>), Co(<<F("extra", 0), F("b", 1), F("a", 0)>>),
        Co(<<F("a", 0), F("", 1)>>), Co(<<F("b", 0), F("", 1)>>), Tu(<<0, 1>>), Co(<<F("", 0), F("", 1)>>), Co(<<F("a", 0)>>), Co(<<F("b", 1)>>),
        Tu(<<0>>), Tu(<<0, 1, 0>>), Co(<<>>), Tu(<<>>), Co(<<F("a", 0), F("b", 1), F("", 0)>>), Sq(0), Co(<<F("a", 16), F("b", 1)>>),
        Co(<<F("inner", 9)>>), Co(<<F("A", 0), F("b", 1)>>), Co(<<F("b", 0), F("c", 0), F("a", 1)>>), Co(<<F("a", 1), F("b", 0)>>)>>,
      0..21, Ts({"N0", "N1", "N2", "U0", "U1", "U2", "UG<u8, bool>", "Unit", "One<u8>", "Gen<u8>", "UG<Any, Any>"}),
      {<<>>}, {0, 1, 2, 4}, 3)>>

\* what takes no bytes, as fields
VoidWorlds(u) ==
  <<W(<<Tu(<<>>), Co(<<>>), Pr("u8"), Ar(2, 0), Co(<<F("", 0), F("", 0)>>), Co(<<F("", 0), F("", 1), F("", 3)>>), Co(<<F("value", 0), F("other", 0)>>), Co(<<F("", 2), F("", 0)>>),
        Co(<<F("", 0), F("", 2), F("", 1)>>), Co(<<F("a", 0), F("", 0)>>), Tu(<<0, 0>>), Co(<<F("", 3), F("", 0)>>), Co(<<F("other", 2), F("a", 0), F("value", 1)>>),
        Co(<<F("value", 3), F("other", 1), F("b", 2)>>), Co(<<F("", 0), F("", 0), F("", 0), F("", 0)>>), Ar(0, 3), Co(<<F("", 15), F("", 10)>>)>>,
      0..16, Ts({"((), ())", "((), (), ())", "((), PhantomData<u8>, ())", "(Unit, Unit)", "([u8; 0], ())", "((), u8, ())", "UG<(), ()>", "UG<Unit, PhantomData<u8>>", "Gen<()>",
                 "UG<[u8; 0], ()>", "One<()>", "((),)", "(Any, Any)", "UG<Any, Any>", "()", "N0", "U0", "N2", "(u8, (), bool)", "(PhantomData<u8>, u8)"}),
      {<<>>}, {0, 1, 4}, 2)>>

(***************************************************************************)
(* C11: enums                                                              *)
(***************************************************************************)
EnumWorlds(u) ==
  <<W(<<Pr("u8"), Pr("bool"), Pr("u16"),
        Va(<<Vr("Unit", 0, <<>>), Vr("Tuple", 1, <<F("", 0), F("", 2)>>), Vr("Named", 2, <<F("b", 1), F("a", 0)>>)>>),
        Va(<<Vr("Named", 0, <<F("a", 0), F("b", 1)>>), Vr("Unit", 7, <<F("", 0)>>), Vr("Tuple", 1, <<F("", 0)>>), Vr("Other", 3, <<>>)>>),
        Va(<<Vr("Some", 0, <<F("", 0)>>), Vr("None", 1, <<>>)>>), Va(<<Vr("None", 0, <<F("", 0)>>), Vr("Some", 1, <<>>), Vr("Ok", 2, <<F("a", 0)>>), Vr("Err", 3, <<>>)>>),
        Va(<<Vr("Err", 0, <<F("", 0)>>), Vr("Ok", 1, <<F("", 0)>>), Vr("Some", 2, <<F("a", 0), F("b", 0)>>)>>),
        Va(<<Vr("One", 0, <<F("", 2)>>), Vr("Two", 1, <<F("x1", 0)>>), Vr("Left", 2, <<F("", 0)>>)>>),
        Va(<<Vr("V0", 0, <<>>), Vr("V1", 1, <<>>), Vr("V7", 2, <<F("", 0)>>), Vr("V3", 3, <<>>), Vr("V2", 255, <<>>)>>),
        Va(<<>>), Va(<<Vr("One", 1, <<F("", 0)>>), Vr("Two", 1, <<F("", 0)>>)>>), Sq(5), Tu(<<4>>),
        Va(<<Vr("Named", 2, <<F("", 0), F("b", 1)>>), Vr("Empty", 1, <<>>), Vr("Nested", 0, <<F("", 0)>>), Vr("Right", 3, <<F("extra", 0), F("value", 0)>>)>>)>>,
      3..14, Ts({"E1", "E2", "E8", "Option<u8>", "Result<u8, u8>", "Result<u8, String>", "ENames", "EGen<u8, String>", "Option<Any>", "EGen<Box<u8>, Compact<u32>>", "Vec<Option<u8>>"}),
      {<<>>}, {0, 1, 2, 3, 7, 255}, 4)>>

(***************************************************************************)
(* C12: skipped fields; `alike` pairs a target with and without them       *)
(***************************************************************************)
SkipWorlds(u) ==
  <<W(<<Pr("u8"), Pr("bool"), Pr("u16"), Co(<<F("a", 0), F("c", 1)>>), Co(<<F("a", 0), F("b", 0), F("c", 1)>>), Co(<<F("c", 1), F("a", 0)>>),
        Tu(<<0, 1>>), Tu(<<0, 2, 1>>), Co(<<F("a", 0), F("", 1)>>), Co(<<F("d", 0), F("b", 0)>>), Co(<<F("b", 0), F("a", 0), F("d", 0)>>), Tu(<<0, 0>>), Tu(<<0, 0, 0>>),
        Co(<<>>), Tu(<<>>), Co(<<F("a", 0)>>), Tu(<<0>>), Co(<<F("value", 0)>>), Co(<<F("value", 0), F("extra", 0)>>),
        Va(<<Vr("One", 0, <<F("", 0)>>), Vr("Two", 1, <<F("d", 0), F("a", 0)>>), Vr("Three", 2, <<>>), Vr("Named", 3, <<>>), Vr("Both", 4, <<F("", 0), F("", 0)>>)>>),
        Va(<<Vr("One", 0, <<F("", 0), F("", 0)>>), Vr("Two", 1, <<F("d", 0), F("", 0)>>), Vr("Three", 2, <<F("", 0)>>), Vr("Named", 3, <<F("skipped", 0)>>), Vr("Both", 4, <<F("", 0), F("", 0), F("", 0), F("", 0)>>)>>),
        Co(<<F("a", 0), F("f", 0)>>), Co(<<F("a", 0), F("b", 0), F("c", 0), F("d", 0), F("e", 0), F("f", 0)>>)>>,
      3..22, Ts({"S1", "S2", "SAll", "SU1", "SU2", "SU3", "SE", "SGen<u8>", "Vec<S1>", "Option<SU1>"} \cup
                {Tgts[i].rust : i \in {i \in 1..Len(Tgts) : Tgts[i].rust \in {"Attrs", "AttrsU", "AttrsE", "NoBounds<u8>"}}}),
      {<<>>}, {0, 1, 2, 3, 4}, 3)>>

(***************************************************************************)
(* C16: paths, in nested types                                             *)
(***************************************************************************)
PathWorlds(u) ==
  <<W(<<Pr("u8"), Pr("u16"), Co(<<F("a", 1), F("b", 0)>>), Sq(2), Va(<<Vr("Some", 1, <<F("", 1)>>), Vr("None", 0, <<>>)>>), Sq(4), Tu(<<4, 1>>), Sq(6),
        Va(<<Vr("Ok", 0, <<F("", 5)>>), Vr("Err", 1, <<F("", 2)>>)>>), Co(<<F("inner", 4)>>), Ar(9, 2), Co(<<F("x1", 4), F("x2", 1)>>), Tu(<<1, 0>>), Va(<<Vr("Left", 0, <<F("a", 1)>>), Vr("Right", 1, <<F("value", 1)>>), Vr("Other", 2, <<>>)>>), Sq(13)>>,
      {3, 5, 7, 8, 10, 11, 12, 14}, Ts({"Vec<N1>", "Vec<Option<u8>>", "Vec<(u8, bool)>", "Result<Vec<u8>, ()>", "Result<N2, U2>", "[Option<u8>; 2]", "BTreeMap<String, Option<u16>>", "BTreeMap<String, u8>",
         "(Option<u8>, u8)", "(u8, u8)", "Option<Result<u8, bool>>", "Range<u8>", "Vec<Any>", "Gen<Option<u8>>", "UG<u8, bool>", "Vec<Range<u8>>", "EGen<u8, String>", "Vec<E1>"} \cap {Tgts[i].rust : i \in 1..Len(Tgts)}),
      {<<4>>, <<8>>, <<0>>, <<1>>, <<4, 1>>, <<8, 1>>}, {0, 1, 2, 4, 5}, 4)>>

(***************************************************************************)
(* C17: pointers; `alike` pairs a target with what it points to            *)
(***************************************************************************)
PointerPairs(u) == {<<"Box<u8>", "u8">>, <<"Compact<u32>", "u32">>, <<"Box<u64>", "u64">>, <<"Arc<i16>", "i16">>, <<"Box<String>", "String">>, <<"Box<Box<u8>>", "u8">>,
    <<"Box<N2>", "N2">>, <<"Arc<E1>", "E1">>, <<"Rc<(u8, u16)>", "(u8, u16)">>, <<"Box<(u32,)>", "(u32,)">>, <<"Box<Bits>", "Bits">>, <<"Box<Option<u8>>", "Option<u8>">>,
    <<"Rc<BTreeMap<String, u32>>", "BTreeMap<String, u32>">>, <<"Box<Vec<Box<u16>>>", "Vec<u16>">>, <<"Compact<Compact<u8>>", "u8">>, <<"Compact<One<u32>>", "One<u32>">>, <<"Compact<(u64,)>", "(u64,)">>,
    <<"OwnI64", "i64">>, <<"AnyOwn", "Any">>, <<"Box<Any>", "Any">>, <<"(Box<u8>,)", "(u8,)">>, <<"Option<Box<u8>>", "Option<u8>">>, <<"Vec<Box<u8>>", "Vec<u8>">>, <<"One<Box<u8>>", "One<u8>">>,
    <<"Compact<U1>", "U1">>, <<"Box<()>", "()">>, <<"Box<Unit>", "Unit">>, <<"Rc<Vec<u8>>", "Vec<u8>">>, <<"Box<OwnI64>", "i64">>, <<"Vec<OwnI64>", "Vec<i64>">>, <<"Box<(u8,)>", "(u8,)">>}
PointerWorlds(u) ==
  <<[W(<<Pr("u8"), Cp(0), Sq(0), Tu(<<0, 0>>), Co(<<F("a", 0)>>), Cp(4), Co(<<F("a", 0), F("b", 8)>>), Va(<<Vr("Some", 1, <<F("", 0)>>), Vr("None", 0, <<>>), Vr("Unit", 2, <<>>), Vr("Tuple", 3, <<F("", 0), F("", 0)>>)>>), Pr("bool"),
         Tu(<<0>>), Cp(9), Tu(<<>>), Sq(1), Pr("str"), Bi(1, FALSE), Co(<<F("inner", 1)>>), Ar(0, 2), Tu(<<1>>), Pr("i8")>>,
       0..18, UNION {Ts({p[1], p[2]}) : p \in PointerPairs(0)}, {<<>>}, {0, 1, 2, 4, 8, 255}, 3)
     EXCEPT !.alike = {<<T(p[1]), T(p[2])>> : p \in PointerPairs(0)}]>>

(***************************************************************************)
(* C18: tuples, ranges, durations and markers                              *)
(***************************************************************************)
TupleWorlds(u) ==
  <<W(<<Pr("u8"), Tu(<<>>), Tu(<<0>>), Tu(<<0, 0>>), Tu(<<0, 0, 0>>), Co(<<>>), Co(<<F("a", 0)>>), Co(<<F("b", 0), F("a", 0)>>), Co(<<F("", 0), F("a", 0), F("", 0)>>),
        Tu(<<3>>), Tu(<<2, 0>>), Va(<<Vr("Some", 1, <<F("", 0)>>), Vr("None", 0, <<>>)>>), Sq(0), Cp(0), Cp(2), Pr("bool"), Tu(<<0, 15>>), Co(<<F("a", 3)>>), Tu(<<1>>), Tu(<<0, 1, 15>>), Co(<<F("a", 2)>>)>>,
      0..20, Ts({"()", "(u8,)", "(u8, u8)", "(u8, bool)", "((u8,),)", "((),)", "((u8, u8),)", "(Option<u8>,)", "(Vec<u8>,)", "Range<u8>", "RangeInclusive<u32>", "Duration", "PhantomData<u8>", "Unit",
          "U0", "(u16, u16, u16)", "(u8, (), bool)", "(PhantomData<u8>, u8)", "(u8, u16)", "Range<Box<u8>>", "(Any, Any)", "(BTreeMap<String, u8>,)", "(N1,)", "(U1,)", "RangeInclusive<(u8, u8)>"}),
      {<<>>}, {0, 1, 2, 4}, 4),
    W(<<Pr("u64"), Pr("u32"), Tu(<<0, 1>>), Co(<<F("a", 0), F("b", 1)>>), Pr("i64"), Tu(<<4, 0>>)>>, {2, 3, 5}, Ts({"Duration", "(u64, u32)", "(Duration, u8)"}),
      {<<255, 255, 255, 255, 255, 255, 255, 255>>, <<252, 255, 255, 255, 255, 255, 255, 255>>, <<251, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 0, 0, 0, 0>>},
      {0, 1, 59, 107, 154, 202, 238, 255}, 4)>>

(***************************************************************************)
(* C25: maps                                                               *)
(***************************************************************************)
MapWorlds(u) ==
  <<W(<<Pr("u8"), Pr("bool"), Co(<<>>), Co(<<F("a", 0)>>), Co(<<F("b", 0), F("a", 0)>>), Co(<<F("a", 0), F("", 0), F("b", 0)>>), Co(<<F("", 0), F("a", 0)>>), Co(<<F("", 0), F("", 0)>>),
        Co(<<F("a", 0), F("b", 1)>>), Tu(<<0, 0>>), Tu(<<5, 0>>), Sq(3), Cp(0), Co(<<F("a", 12), F("zz", 0)>>), Co(<<F("a", 3), F("b", 4)>>), Tu(<<3>>), Va(<<Vr("One", 0, <<F("a", 0)>>)>>), Co(<<F("x1", 0), F("", 17), F("x10", 0)>>),
        Cp(3), Sq(5), Co(<<F("a", 11)>>), Sq(18)>>,
      (2..21), Ts({"BTreeMap<String, u8>", "BTreeMap<String, u32>", "BTreeMap<String, Any>", "BTreeMap<String, BTreeMap<String, u8>>", "BTreeMap<String, N1>", "BTreeMap<String, bool>", "BTreeMap<String, Vec<u8>>",
        "Rc<BTreeMap<String, u32>>", "BTreeMap<String, (u8, u8)>", "BTreeMap<String, One<u8>>", "(BTreeMap<String, u8>,)"}),
      {<<>>}, {0, 1, 2, 4, 8}, 4)>>
=============================================================================
