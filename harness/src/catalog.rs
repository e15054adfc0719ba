//! The types which we decode into.
use crate::any::*;
use crate::desc::*;
use crate::{impl_enum, impl_named, impl_unnamed};
use codec::Compact;
use primitive_types::*;
use scale_decode::visitor::{decode_with_visitor, types::*};
use scale_decode::{DecodeAsFields, DecodeAsType, Error, Field, IntoVisitor, TypeResolver};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, LinkedList, VecDeque};
use std::marker::PhantomData;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub type Outcome = Result<Toks, Error>;
pub type Bits = scale_bits::Bits;

/// The items which handles give out have types without public names.
pub trait Good {
    type T;
}
impl<T, E> Good for Result<T, E> {
    type T = T;
}
pub type ItemOf<H> = <<H as Iterator>::Item as Good>::T;

/// An item which came out of a handle.
pub enum Stored<'s, 'r, R: TypeResolver> {
    Seq(ItemOf<Sequence<'s, 'r, R>>),
    Arr(ItemOf<Array<'s, 'r, R>>),
    Tup(ItemOf<Tuple<'s, 'r, R>>),
    Comp(ItemOf<Composite<'s, 'r, R>>),
}

pub type FieldsDec<R> =
    fn(&mut &[u8], &mut dyn scale_decode::FieldIter<'_, <R as TypeResolver>::TypeId>, &R) -> Outcome;

pub trait TypedOps<R: TypeResolver> {
    fn dec(&self, input: &mut &[u8], t: R::TypeId, types: &R, via: u32) -> Outcome;
    fn seq(&self, h: &mut Sequence<'_, '_, R>) -> Option<Outcome>;
    fn arr(&self, h: &mut Array<'_, '_, R>) -> Option<Outcome>;
    fn tup(&self, h: &mut Tuple<'_, '_, R>) -> Option<Outcome>;
    fn comp(&self, h: &mut Composite<'_, '_, R>) -> Option<Outcome>;
    fn later(&self, s: &Stored<'_, '_, R>, via: u32) -> Outcome;
}
pub struct Ops<T>(PhantomData<T>);

fn show<T: ToToks>(r: Result<T, Error>) -> Outcome {
    r.map(|v| {
        let mut o = vec![];
        v.toks(&mut o);
        o
    })
}
impl<R: TypeResolver, T: Tgt> TypedOps<R> for Ops<T> {
    fn dec(&self, input: &mut &[u8], t: R::TypeId, types: &R, via: u32) -> Outcome {
        match via {
            0 => show(T::decode_as_type(input, t, types)),
            _ => show(decode_with_visitor(input, t, types, T::into_visitor::<R>())),
        }
    }
    fn seq(&self, h: &mut Sequence<'_, '_, R>) -> Option<Outcome> {
        h.decode_item(T::into_visitor::<R>()).map(show)
    }
    fn arr(&self, h: &mut Array<'_, '_, R>) -> Option<Outcome> {
        h.decode_item(T::into_visitor::<R>()).map(show)
    }
    fn tup(&self, h: &mut Tuple<'_, '_, R>) -> Option<Outcome> {
        h.decode_item(T::into_visitor::<R>()).map(show)
    }
    fn comp(&self, h: &mut Composite<'_, '_, R>) -> Option<Outcome> {
        h.decode_item(T::into_visitor::<R>()).map(show)
    }
    fn later(&self, s: &Stored<'_, '_, R>, via: u32) -> Outcome {
        match (s, via) {
            (Stored::Seq(x), 0) => show(x.decode_as_type::<T>()),
            (Stored::Arr(x), 0) => show(x.decode_as_type::<T>()),
            (Stored::Tup(x), 0) => show(x.decode_as_type::<T>()),
            (Stored::Comp(x), 0) => show(x.decode_as_type::<T>()),
            (Stored::Seq(x), _) => show(x.decode_with_visitor(T::into_visitor::<R>())),
            (Stored::Arr(x), _) => show(x.decode_with_visitor(T::into_visitor::<R>())),
            (Stored::Tup(x), _) => show(x.decode_with_visitor(T::into_visitor::<R>())),
            (Stored::Comp(x), _) => show(x.decode_with_visitor(T::into_visitor::<R>())),
        }
    }
}
fn by_fields<R: TypeResolver, T: DecodeAsFields + ToToks>(
    input: &mut &[u8],
    fields: &mut dyn scale_decode::FieldIter<'_, R::TypeId>,
    types: &R,
) -> Outcome {
    // the resolver and the fields need to live equally long
    let mut fs = fields.map(|f| Field::new(f.id, f.name.map(|n| crate::names::name(crate::names::nid(n)))));
    let fs: Vec<Field<'_, R::TypeId>> = fs.by_ref().collect();
    show(T::decode_as_fields(input, &mut fs.into_iter(), types))
}

/// The targets for some kind of resolver.
pub struct Cat<R: TypeResolver> {
    pub list: Vec<usize>,
    pub ops: HashMap<usize, Box<dyn TypedOps<R>>>,
    pub fields: HashMap<usize, FieldsDec<R>>,
    pub groups: HashMap<&'static str, Vec<usize>>,
}
impl<R: TypeResolver> Cat<R> {
    fn new() -> Self {
        Cat { list: vec![], ops: HashMap::new(), fields: HashMap::new(), groups: HashMap::new() }
    }
    fn add<T: Tgt>(&mut self, b: &mut Table, group: &'static str) -> usize {
        let g = b.of::<T>();
        if self.ops.insert(g, Box::new(Ops::<T>(PhantomData))).is_none() {
            self.list.push(g);
        }
        self.groups.entry(group).or_default().push(g);
        g
    }
    fn add_fields<T: Tgt + DecodeAsFields>(&mut self, b: &mut Table, group: &'static str) {
        let g = self.add::<T>(b, group);
        self.fields.insert(g, by_fields::<R, T>);
    }
    pub fn group(&self, g: &str) -> &[usize] {
        self.groups.get(g).map(|v| &v[..]).unwrap_or(&[])
    }
}

macro_rules! cat {
    ($c:ident, $b:ident, $g:literal: $($t:ty),* $(,)?) => { $( $c.add::<$t>($b, $g); )* };
}
macro_rules! catf {
    ($c:ident, $b:ident, $g:literal: $($t:ty),* $(,)?) => { $( $c.add_fields::<$t>($b, $g); )* };
}

// ---------------------------------------------------------------------------------------------
// Structs

#[derive(DecodeAsType)]
pub struct N0 {}
impl_named!(N0 {});

#[derive(DecodeAsType, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub struct N1 {
    a: u32,
}
impl_named!(N1 { a: u32 });

#[derive(DecodeAsType, Clone)]
pub struct N2 {
    a: u32,
    b: bool,
}
impl_named!(N2 { a: u32, b: bool });

#[derive(DecodeAsType)]
pub struct N3 {
    c: u8,
    a: String,
    b: Vec<u16>,
}
impl_named!(N3 { c: u8, a: String, b: Vec<u16> });

// several fields of one type, so that mixing them up shows in the values only
#[derive(DecodeAsType)]
pub struct N5 {
    e: u16,
    d: u16,
    a: u16,
    c: u16,
    b: u16,
}
impl_named!(N5 { e: u16, d: u16, a: u16, c: u16, b: u16 });

// names which differ a little only
#[derive(DecodeAsType)]
#[allow(non_snake_case)]
pub struct NCase {
    a: u8,
    aA: u8,
    A: u8,
    aa: u8,
    value_: u8,
    value: u8,
    x10: u8,
    x1: u8,
}
impl_named!(NCase { a: u8, aA: u8, A: u8, aa: u8, value_: u8, value: u8, x10: u8, x1: u8 });

#[derive(DecodeAsType)]
pub struct NUnder {
    value_: u8,
    name: u16,
    x01: u8,
}
impl_named!(NUnder { value_: u8, name: u16, x01: u8 });

#[derive(DecodeAsType)]
#[allow(non_camel_case_types)]
pub enum ECase {
    Some(u8),
    SOME(u8),
    some(u8),
    None,
    V0 { a: u8, A: u8 },
    v0 { a: u8, A: u8 },
    V00,
    NONE,
}
impl_enum!(ECase { tuple Some(a: u8), tuple SOME(a: u8), tuple some(a: u8), unit None, named V0 { a: u8, A: u8 },
    named v0 { a: u8, A: u8 }, unit V00, unit NONE });

#[derive(DecodeAsType)]
pub struct N18 {
    a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8, o: u8, p: u8,
    q: u16, r: u16,
}
impl_named!(N18 {
    a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8, o: u8, p: u8,
    q: u16, r: u16,
});

#[derive(DecodeAsType)]
pub struct N24 {
    x1: u16, x2: u16, x10: u16, aa: u16, ab: u16, inner: u16, value: u16, left: u16, right: u16, kids: u16, name: u16,
    data: u16, a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, g: u16, h: u16, i: u16, j: u16, k: u16, l: u16,
}
impl_named!(N24 {
    x1: u16, x2: u16, x10: u16, aa: u16, ab: u16, inner: u16, value: u16, left: u16, right: u16, kids: u16, name: u16,
    data: u16, a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, g: u16, h: u16, i: u16, j: u16, k: u16, l: u16,
});

#[derive(DecodeAsType)]
pub struct Gen<T> {
    value: T,
    other: u8,
}
impl_named!([T: Tgt] Gen<T> { value: T, other: u8 });

#[derive(DecodeAsType)]
pub struct One<T> {
    inner: T,
}
impl_named!([T: Tgt] One<T> { inner: T });

#[derive(DecodeAsType, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub struct U1(u32);
impl_unnamed!(U1 (a: u32));

#[derive(DecodeAsType)]
pub struct U2(u16, String);
impl_unnamed!(U2 (a: u16, b: String));

#[derive(DecodeAsType)]
pub struct U4(u16, u16, u16, u16);
impl_unnamed!(U4 (a: u16, b: u16, c: u16, d: u16));

#[derive(DecodeAsType)]
pub struct UG<A, B>(A, B);
impl_unnamed!([A: Tgt, B: Tgt] UG [A, B] (a: A, b: B));

#[derive(DecodeAsType)]
pub struct U17(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
impl_unnamed!(U17 (
    a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8, o: u8, p: u8, q: u8));

#[derive(DecodeAsType)]
pub struct U0();
impl_unnamed!(U0 ());

#[derive(DecodeAsType)]
pub struct Unit;
impl ToToks for Unit {
    fn toks(&self, o: &mut Toks) {
        o.push(Tok("{", vec![0]));
    }
}
impl Tgt for Unit {
    fn desc(_: &mut Table) -> D {
        D::Struct { style: Style::Unit, fs: vec![] }
    }
}

// ---------------------------------------------------------------------------------------------
// Skipped fields

/// has a default which is not just zeroes
#[derive(DecodeAsType, Clone)]
pub struct Seven(u32);
impl Default for Seven {
    fn default() -> Self {
        Seven(7)
    }
}
impl_unnamed!(Seven (a: u32));

/// cannot be decoded into, but has a default
#[derive(Clone, Default)]
#[cfg_attr(not(feature = "exotic"), derive(DecodeAsType))]
pub struct Opaque(#[allow(dead_code)] u64);
impl ToToks for Opaque {
    fn toks(&self, o: &mut Toks) {
        self.0.toks(o)
    }
}

#[derive(DecodeAsType)]
pub struct S1 {
    a: u32,
    #[decode_as_type(skip)]
    b: u64,
    c: bool,
}
impl_named!(S1 { a: u32, b: u64 = skip, c: bool });

#[derive(DecodeAsType)]
pub struct S2 {
    #[codec(skip)]
    a: Seven,
    b: u16,
    #[decode_as_type(skip)]
    c: String,
    d: u16,
    #[codec(skip)]
    e: Opaque,
}
impl_named!(S2 { a: Seven = skip, b: u16, c: String = skip, d: u16, e: Opaque = skip });

#[derive(DecodeAsType)]
pub struct SAll {
    #[codec(skip)]
    a: Seven,
    #[decode_as_type(skip)]
    b: Option<u8>,
}
impl_named!(SAll { a: Seven = skip, b: Option<u8> = skip });

#[derive(DecodeAsType)]
pub struct SU1(u8, #[codec(skip)] u16, bool);
impl_unnamed!(SU1 (a: u8, b: u16 = skip, c: bool));

#[derive(DecodeAsType)]
pub struct SU2(#[decode_as_type(skip)] Seven, u16, u16, #[codec(skip)] Opaque, u16, #[decode_as_type(skip)] Seven);
impl_unnamed!(SU2 (a: Seven = skip, b: u16, c: u16, d: Opaque = skip, e: u16, f: Seven = skip));

#[derive(DecodeAsType)]
pub struct SU3(#[codec(skip)] Seven);
impl_unnamed!(SU3 (a: Seven = skip));

#[derive(DecodeAsType)]
pub enum SE {
    One(#[codec(skip)] Seven, u8),
    Two {
        a: u16,
        #[decode_as_type(skip)]
        b: String,
        #[codec(skip)]
        c: Opaque,
        d: u16,
    },
    Three(#[decode_as_type(skip)] u8),
    Named {
        #[codec(skip)]
        skipped: Seven,
    },
    Both(u16, #[decode_as_type(skip)] Seven, u16, #[codec(skip)] Opaque),
}
impl_enum!(SE {
    tuple One(a: Seven = skip, b: u8),
    named Two { a: u16, b: String = skip, c: Opaque = skip, d: u16 },
    tuple Three(a: u8 = skip),
    named Named { skipped: Seven = skip },
    tuple Both(a: u16, b: Seven = skip, c: u16, d: Opaque = skip),
});

#[derive(DecodeAsType)]
pub struct SGen<T> {
    #[codec(skip)]
    phantom: PhantomData<T>,
    value: T,
    #[decode_as_type(skip)]
    extra: Seven,
}
impl_named!([T: Tgt] SGen<T> { phantom: PhantomData<T> = skip, value: T, extra: Seven = skip });

// ---------------------------------------------------------------------------------------------
// Enums

#[derive(DecodeAsType, Clone)]
pub enum E1 {
    Unit,
    Tuple(u8, u16),
    Named { a: u32, b: bool },
}
impl_enum!(E1 { unit Unit, tuple Tuple(a: u8, b: u16), named Named { a: u32, b: bool } });

#[derive(DecodeAsType)]
pub enum E2 {
    One(u8),
    Two(u16),
    Three(String),
}
impl_enum!(E2 { tuple One(a: u8), tuple Two(a: u16), tuple Three(a: String) });

#[derive(DecodeAsType, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum E8 {
    V7,
    V6,
    V0,
    V1,
    V5,
    V2,
    V4,
    V3,
}
impl_enum!(E8 { unit V7, unit V6, unit V0, unit V1, unit V5, unit V2, unit V4, unit V3 });

#[derive(DecodeAsType)]
pub enum EGen<T, U> {
    Left(T),
    Right { value: U },
    Empty {},
    Nested(),
}
impl_enum!([T: Tgt, U: Tgt] EGen [T, U] { tuple Left(a: T), named Right { value: U }, named Empty {}, tuple Nested() });

#[derive(DecodeAsType)]
pub enum ENames {
    Some(u8),
    None,
    Ok { a: u8, c: u8, b: u8 },
    Err(bool, bool),
}
impl_enum!(ENames { tuple Some(a: u8), unit None, named Ok { a: u8, c: u8, b: u8 }, tuple Err(a: bool, b: bool) });

#[derive(DecodeAsType)]
pub enum EBig {
    Big {
        a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8, o: u8, p: u8,
        q: u16, r: u16,
    },
    Other(u8),
}
impl_enum!(EBig {
    named Big { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8,
        o: u8, p: u8, q: u16, r: u16 },
    tuple Other(a: u8),
});

// ---------------------------------------------------------------------------------------------
// Recursive and nested types

#[derive(DecodeAsType)]
pub enum Tree {
    Leaf(u8),
    Node(Box<Tree>, Box<Tree>),
    Empty,
}
impl_enum!(Tree { tuple Leaf(a: u8), tuple Node(a: Box<Tree>, b: Box<Tree>), unit Empty });

#[derive(DecodeAsType)]
pub struct Rec {
    value: u8,
    kids: Vec<Rec>,
}
impl_named!(Rec { value: u8, kids: Vec<Rec> });

#[derive(DecodeAsType)]
pub struct RecOpt {
    data: u16,
    inner: Option<Box<RecOpt>>,
}
impl_named!(RecOpt { data: u16, inner: Option<Box<RecOpt>> });

#[derive(DecodeAsType)]
pub struct Outer {
    inner: N2,
    left: E1,
    right: Option<U2>,
    data: [u8; 3],
}
impl_named!(Outer { inner: N2, left: E1, right: Option<U2>, data: [u8; 3] });

#[derive(DecodeAsType)]
pub struct Wraps {
    a: Box<u32>,
    b: Arc<String>,
    c: Rc<Vec<u8>>,
    d: Compact<u64>,
    e: Cow<'static, str>,
    f: (u16,),
    g: Option<Box<E1>>,
}
impl_named!(Wraps {
    a: Box<u32>, b: Arc<String>, c: Rc<Vec<u8>>, d: Compact<u64>, e: Cow<'static, str>, f: (u16,), g: Option<Box<E1>>
});

#[derive(DecodeAsType)]
pub struct Deep {
    a: Vec<Option<Result<(u8, N1), E2>>>,
    b: [Result<BTreeMap<String, Vec<u16>>, ()>; 2],
}
impl_named!(Deep { a: Vec<Option<Result<(u8, N1), E2>>>, b: [Result<BTreeMap<String, Vec<u16>>, ()>; 2] });

#[derive(DecodeAsType)]
pub struct WithOwn {
    a: AnyOwn,
    b: OwnI64,
    c: Vec<OwnI64>,
}
impl_named!(WithOwn { a: AnyOwn, b: OwnI64, c: Vec<OwnI64> });

#[derive(DecodeAsType)]
pub struct Markers {
    a: PhantomData<u8>,
    b: u8,
    c: (),
    d: Unit,
}
impl_named!(Markers { a: PhantomData<u8>, b: u8, c: (), d: Unit });

macro_rules! tuple_cat {
    ($c:ident, $b:ident, $g:literal, $t:ty: ) => { catf!($c, $b, $g: ()); };
    ($c:ident, $b:ident, $g:literal, $t:ty: $x:tt $($rest:tt)*) => {
        catf!($c, $b, $g: ($t, $(tuple_cat!(@ $rest $t),)*));
        tuple_cat!($c, $b, $g, $t: $($rest)*);
    };
    (@ $x:tt $t:ty) => { $t };
}

#[cfg(feature = "exotic")]
#[path = "exotic.rs"]
pub mod exotic;

/// All targets.
pub fn full<R: TypeResolver + 'static>(b: &mut Table) -> Cat<R> {
    let mut cat = Cat::new();
    let c = &mut cat;
    common(c, b);
    cat!(c, b, "num": u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    cat!(c, b, "nz": NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128,
        NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128);
    cat!(c, b, "leaf": bool, char, String, Bits, PhantomData<u8>, ());
    cat!(c, b, "wrap": Box<u32>, Box<String>, Rc<u64>, Arc<i16>, Compact<u32>, Compact<u128>, Cow<'static, str>,
        Cow<'static, [u16]>, Cow<'static, N2>, Box<Box<u8>>, Box<N2>, Arc<E1>, Rc<(u8, u16)>, Box<(u32,)>, Box<Bits>,
        Arc<[u8; 4]>, Box<Option<u8>>, Rc<BTreeMap<String, u32>>, Box<Vec<Box<u16>>>, Compact<Compact<u8>>,
        Box<Compact<u64>>, Compact<Box<u16>>, Arc<Rc<Box<bool>>>, OwnI64, AnyOwn, Box<OwnI64>, Vec<AnyOwn>, Box<Any>,
        Compact<One<u32>>, Compact<(u64,)>, Compact<NonZeroU8>, Box<Range<u16>>, Arc<Duration>, Box<Unit>, Rc<U1>,
        Box<H256>, Box<()>, Arc<PhantomData<u8>>, Compact<U1>, Box<E8>, (OwnI64,), (Box<u8>,), (Compact<u32>,), Box<char>);
    cat!(c, b, "list": Vec<u8>, Vec<u32>, Vec<i64>, Vec<bool>, Vec<String>, Vec<Vec<u16>>, Vec<Option<u8>>, Vec<(u8, bool)>,
        Vec<N2>, Vec<E1>, Vec<Box<u8>>, Vec<[u8; 2]>, VecDeque<u32>, VecDeque<u8>, LinkedList<u16>, LinkedList<String>,
        BTreeSet<u16>, BTreeSet<i8>, BTreeSet<String>, BTreeSet<(u8, bool)>, BTreeSet<Vec<u8>>, BTreeSet<char>,
        BTreeSet<Option<u8>>, BinaryHeap<i32>, BinaryHeap<u8>, BinaryHeap<(u8, u8)>, Vec<u128>, Vec<char>, Vec<()>,
        Vec<Compact<u32>>, Vec<Bits>, Vec<NonZeroU8>, VecDeque<VecDeque<u8>>, Vec<usize>);
    cat!(c, b, "arr": [u8; 0], [u8; 1], [u8; 2], [u8; 3], [u16; 4], [u32; 5], [u8; 7], [u8; 8], [u8; 15], [u8; 16], [u8; 17],
        [u8; 31], [u8; 32], [u8; 33], [u16; 63], [u8; 64], [u8; 65], [u8; 100], [u8; 255], [u8; 256], [u8; 300],
        [bool; 3], [String; 2], [[u8; 2]; 3], [Option<u8>; 2], [(u8, u16); 2], [Box<u8>; 2], [N1; 2], [Vec<u8>; 3],
        [Compact<u16>; 2], [i128; 2], [(); 2], [(); 0], [String; 0], [char; 1]);
    cat!(c, b, "hash": H128, H160, H256, H384, H512, H768);
    cat!(c, b, "opt": Option<u8>, Option<u64>, Option<bool>, Option<String>, Option<Option<u16>>, Option<Vec<u8>>,
        Option<(u8, u16)>, Option<N2>, Option<E1>, Option<Box<u8>>, Option<()>, Option<Result<u8, bool>>, Option<[u8; 2]>,
        Option<Bits>);
    cat!(c, b, "res": Result<u32, String>, Result<u8, u8>, Result<(), bool>, Result<Vec<u8>, ()>, Result<Option<u8>, E2>,
        Result<N2, U2>, Result<Result<u8, u16>, u32>, Result<Box<u8>, Box<u16>>);
    cat!(c, b, "map": BTreeMap<String, u8>, BTreeMap<String, u32>, BTreeMap<String, String>, BTreeMap<String, Vec<u8>>,
        BTreeMap<String, Option<u16>>, BTreeMap<String, BTreeMap<String, u8>>, BTreeMap<String, N1>, BTreeMap<String, E1>,
        BTreeMap<String, (u8, u8)>, BTreeMap<String, Any>, BTreeMap<String, Box<u64>>, BTreeMap<String, ()>,
        BTreeMap<String, Compact<u32>>, BTreeMap<String, One<u8>>, BTreeMap<String, bool>);
    tuple_cat!(c, b, "tuple", u16: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20);
    catf!(c, b, "tuple": (u8, bool), (bool, u8, String), (String, u32), ((u8, u16), bool), (N2, E1), (Option<u8>, u8), (Vec<u8>, u8),
        ((),), ((u8,),), (Box<u8>, Compact<u16>), ([u8; 2], String), (u8, (), bool), (PhantomData<u8>, u8),
        (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, String, Vec<u8>, Option<u8>, (), [u8; 2]));
    cat!(c, b, "tuple1": (u8,), (u128,), (String,), (bool,), (Vec<u8>,), (Option<u8>,), (E1,), ([u8; 3],), (Bits,), (N1,), ((u8, u8),),
        (BTreeMap<String, u8>,), (char,), (Result<u8, bool>,), (H256,), (Duration,), ((u8,),), (U1,), (Any,));
    cat!(c, b, "range": Range<u8>, Range<u32>, RangeInclusive<u32>, RangeInclusive<i64>, Range<String>, RangeInclusive<(u8, u8)>,
        Range<Box<u8>>, Range<Option<u8>>, Vec<Range<u8>>);
    cat!(c, b, "dur": Duration, Box<Duration>, Vec<Duration>, Option<Duration>, (Duration, u8), Gen<Duration>);
    cat!(c, b, "marker": PhantomData<u8>, PhantomData<String>, (), Unit, U0, N0, Vec<Unit>, Option<PhantomData<u8>>);
    catf!(c, b, "struct": N0, N1, N2, N3, N5, NCase, NUnder, N18, N24, Gen<u8>, Gen<String>, Gen<N2>, Gen<E1>, Gen<Option<u8>>, One<u8>, One<One<u16>>,
        One<String>, One<N2>, U1, U2, U4, UG<u8, bool>, UG<N2, E1>, U17, U0, Unit, Outer, Wraps, Rec, RecOpt, Deep, WithOwn,
        Markers, One<(u32,)>, One<Box<u8>>, UG<Compact<u8>, Vec<u8>>, Gen<BTreeMap<String, u8>>, Gen<Any>);
    catf!(c, b, "skip": S1, S2, SAll, SU1, SU2, SU3, SGen<u8>, SGen<N2>);
    cat!(c, b, "skip": SE, Vec<S1>, Option<SU1>, Box<S2>);
    cat!(c, b, "enum": E1, ECase, E2, E8, EGen<u8, String>, EGen<N2, E1>, EGen<(u8, u8), Option<u16>>, ENames, EBig, Tree, SE,
        EGen<Box<u8>, Compact<u32>>, EGen<Vec<E8>, BTreeMap<String, u8>>);
    cat!(c, b, "any": Any, Vec<Any>, One<Any>, (Any, Any), Option<Any>);
    // what is otherwise only part of others
    cat!(c, b, "wrap": Box<u8>, Box<Tree>, Box<u16>, Compact<u8>, Compact<u16>, Compact<u64>, Rc<Box<bool>>, Box<bool>, Rc<Vec<u8>>, Box<E1>, Box<RecOpt>,
        Option<Box<E1>>, Option<Box<RecOpt>>, Vec<Box<u16>>, Vec<OwnI64>);
    cat!(c, b, "list": Vec<Rec>, Vec<u16>, Vec<Option<Result<(u8, N1), E2>>>, Vec<E8>);
    cat!(c, b, "arr": [u8; 4], [Result<BTreeMap<String, Vec<u16>>, ()>; 2]);
    cat!(c, b, "opt": Option<u16>, Option<U2>, Option<Result<(u8, N1), E2>>);
    cat!(c, b, "res": Result<u8, bool>, Result<u8, u16>, Result<(u8, N1), E2>, Result<BTreeMap<String, Vec<u16>>, ()>);
    cat!(c, b, "map": BTreeMap<String, Vec<u16>>);
    cat!(c, b, "range": Range<u16>);
    catf!(c, b, "tuple": (u64, u32), (u8, u16), (u32, u32), (i64, i64), (String, String), ((u8, u8), (u8, u8)), (Box<u8>, Box<u8>),
        (Option<u8>, Option<u8>), (u8, N1));
    cat!(c, b, "tuple1": (u32,));
    catf!(c, b, "struct": One<u64>, One<u32>, One<u16>);
    // the same with other parts
    cat!(c, b, "wrap": Box<u128>, Rc<u128>, Arc<u128>, Rc<String>, Arc<String>, Cow<'static, u128>, Cow<'static, i64>, Cow<'static, bool>,
        Cow<'static, char>, Cow<'static, Option<u8>>, Cow<'static, (u8, u16)>, Cow<'static, [u8; 3]>, Cow<'static, [u8]>, Cow<'static, E1>,
        Box<Cow<'static, u32>>, Cow<'static, U1>, (Cow<'static, u128>,), One<Cow<'static, u32>>, Compact<usize>, Compact<NonZeroU64>, Compact<Rc<u32>>,
        Compact<Arc<u128>>, Compact<((u32,),)>, Compact<One<One<u128>>>, Compact<(Box<u64>,)>, Compact<OwnI64>, Compact<i32>, Compact<AnyOwn>,
        (Compact<u128>,), (Compact<Compact<u16>>,), One<Compact<u128>>, Option<Compact<u64>>, Rc<Vec<Compact<u8>>>, Box<(Compact<u32>, u8)>,
        Box<H160>, Arc<H512>, Rc<NonZeroI16>, Box<PhantomData<String>>, Arc<Result<u8, bool>>, Rc<BinaryHeap<u8>>, Arc<VecDeque<u32>>,
        Rc<LinkedList<u16>>, Box<BTreeSet<u16>>, Rc<RangeInclusive<u32>>, Arc<Tree>, Rc<Rec>, Arc<S1>, Rc<SU2>, Box<SE>, Rc<AnyOwn>, Arc<OwnI64>);
    cat!(c, b, "wrap": Box<i128>, Rc<i8>, Arc<usize>, Box<isize>, Arc<Box<(u128,)>>, Compact<(Compact<u32>,)>);
    cat!(c, b, "map": BTreeMap<String, u128>, BTreeMap<String, H160>, BTreeMap<String, H256>, BTreeMap<String, Cow<'static, str>>,
        BTreeMap<String, [u8; 3]>, BTreeMap<String, (u32,)>, BTreeMap<String, Result<u8, bool>>, BTreeMap<String, Bits>,
        BTreeMap<String, Duration>, BTreeMap<String, Range<u8>>, BTreeMap<String, char>, BTreeMap<String, i64>, BTreeMap<String, NonZeroU8>,
        BTreeMap<String, PhantomData<u8>>, BTreeMap<String, U1>, BTreeMap<String, E8>);
    cat!(c, b, "list": Vec<H160>, Vec<H256>, Vec<U1>, Vec<(u32,)>, Vec<Result<u8, bool>>, Vec<BTreeMap<String, u8>>, Vec<PhantomData<u8>>, Vec<i128>,
        VecDeque<String>, VecDeque<Option<u8>>, VecDeque<N2>, VecDeque<()>, LinkedList<u8>, LinkedList<Vec<u8>>, LinkedList<E1>, BinaryHeap<String>,
        BinaryHeap<Vec<u8>>, BinaryHeap<()>, BTreeSet<()>, BTreeSet<u128>, BTreeSet<(u32,)>, BTreeSet<Box<u16>>, Vec<LinkedList<BTreeSet<u8>>>,
        BTreeSet<N1>, BTreeSet<U1>, BinaryHeap<N1>, BTreeSet<bool>, Vec<SE>);
    cat!(c, b, "arr": [H160; 2], [E1; 2], [Option<String>; 2], [U1; 3], [(u32,); 2], [BTreeMap<String, u8>; 2], [Bits; 2], [Duration; 1], [u128; 1],
        [PhantomData<u8>; 4], [[[u8; 2]; 2]; 2], [Vec<u16>; 1], [VecDeque<u8>; 2], [Unit; 2]);
    cat!(c, b, "opt": Option<u128>, Option<H160>, Option<H256>, Option<BTreeMap<String, u8>>, Option<Option<Option<u8>>>, Option<(u32,)>,
        Option<U1>, Option<Range<u8>>, Option<NonZeroU8>, Option<char>, Option<Rc<String>>, Option<Unit>, Option<E8>, Option<N0>);
    cat!(c, b, "res": Result<u128, i128>, Result<H160, H256>, Result<Bits, String>, Result<(u32,), U1>, Result<Unit, N0>, Result<Vec<u8>, Vec<u16>>,
        Result<char, bool>, Result<BTreeMap<String, u8>, E8>);
    cat!(c, b, "range": Range<u64>, Range<u128>, Range<i8>, Range<i128>, RangeInclusive<u8>, RangeInclusive<u16>, RangeInclusive<u64>, RangeInclusive<u128>,
        RangeInclusive<i128>, RangeInclusive<String>, RangeInclusive<Vec<u8>>, Range<Vec<u8>>, Range<char>, RangeInclusive<bool>, Range<(u32,)>,
        RangeInclusive<N1>, Range<N1>, RangeInclusive<Compact<u64>>, Range<NonZeroU16>, Option<RangeInclusive<u8>>, (Range<u8>,), Box<RangeInclusive<u128>>,
        RangeInclusive<Box<String>>, Range<U1>, RangeInclusive<E8>, Range<()>);
    cat!(c, b, "dur": (Duration,), Duration, One<Duration>, Rc<Duration>, BTreeMap<String, Duration>);
    cat!(c, b, "marker": PhantomData<N2>, PhantomData<Vec<u8>>, Box<PhantomData<u8>>, (PhantomData<u8>,), ((),), One<()>, One<Unit>, Box<U0>);
    catf!(c, b, "tuple": (u128, u128), (i8, i8), (i128, i128), (u8, u8, u8), (H160, u128), (char, char), (NonZeroU16, NonZeroU16), (Vec<u8>, Vec<u8>),
        (bool, bool), ((u32,), (u32,)), (Compact<u64>, Compact<u64>), (N1, N1), (Option<u16>, Result<u8, bool>, [u8; 2], Bits),
        (H256, BTreeMap<String, u8>), (Unit, u8, U0), (Rc<u8>, Arc<u8>, Cow<'static, str>));
    cat!(c, b, "tuple1": (u64,), (i128,), (H160,), (H512,), (Range<u16>,), (Vec<(u8,)>,), ((((u8,),),),), (Option<(u8,)>,), (One<u8>,), (S1,), (SE,), (N2,),
        (N0,), (Unit,), ([u8; 1],), (Tree,), (E8,), (NonZeroU8,), (BTreeSet<u16>,));
    catf!(c, b, "struct": One<u128>, One<H160>, One<H256>, One<Option<u8>>, One<Vec<u8>>, One<BTreeMap<String, u8>>, One<E1>, One<Bits>, One<(u8, u8)>,
        UG<H160, u128>, UG<Rc<u8>, Range<u8>>, UG<(u32,), One<u32>>, UG<S1, SE>, UG<u128, String>, Gen<H256>, Gen<(u32,)>, Gen<u128>, Gen<Bits>,
        Gen<Vec<Gen<u8>>>, Gen<Rc<String>>, Gen<NonZeroU8>, UG<Duration, Duration>);
    catf!(c, b, "skip": SGen<u128>, SGen<String>, SGen<(u32,)>, SGen<S1>, SGen<Vec<u8>>);
    cat!(c, b, "skip": Vec<SE>, Option<SAll>, [SU2; 2], (S1, SU1), BTreeMap<String, S1>, Result<S1, SU3>, (SU1,), (SU3,));
    cat!(c, b, "enum": EGen<(), ()>, EGen<u128, H160>, EGen<E1, EGen<u8, u8>>, EGen<(u32,), One<u32>>, EGen<Vec<u8>, Bits>, EGen<S1, SE>,
        EGen<BTreeMap<String, u8>, Range<u8>>, EGen<Tree, Option<Tree>>);
    // nothing but what takes no bytes
    catf!(c, b, "tuple": ((), ()), ((), (), ()), ((), PhantomData<u8>, ()), (Unit, Unit), ([u8; 0], ()), ((), u8, ()));
    catf!(c, b, "struct": UG<(), ()>, UG<Unit, PhantomData<u8>>, Gen<()>, UG<[u8; 0], ()>);
    #[cfg(feature = "exotic")]
    exotic::add(c, b);
    cat
}

/// Some of each, for the resolvers which are not the main one, and for handles.
pub fn common<R: TypeResolver + 'static>(c: &mut Cat<R>, b: &mut Table) {
    cat!(c, b, "common": u8, u32, u128, i16, i64, bool, char, String, Bits, Vec<u8>, Vec<u32>, Vec<Any>, [u8; 2], [u16; 3],
        Option<u8>, Option<Any>, Result<u8, String>, (u8,), (u64,), (Any,), BTreeMap<String, Any>, BTreeMap<String, u32>,
        Box<u64>, Arc<String>, Compact<u32>, Duration, Range<u8>, H128, PhantomData<u8>, E1, E8, Tree, Any, AnyOwn, OwnI64,
        NonZeroU8, BTreeSet<u8>, Box<(u8,)>);
    catf!(c, b, "common": (), (u8, u8), (Any, Any), N1, N2, N5, U1, U2, UG<Any, Any>, One<u8>, One<One<u64>>, One<Any>, S1, SU1, Unit, Rec);
}
pub fn small<R: TypeResolver + 'static>(b: &mut Table) -> Cat<R> {
    let mut c = Cat::new();
    common(&mut c, b);
    c
}
