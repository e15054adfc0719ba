//! Targets: what the specification is told about a Rust type which we decode into, and how its
//! values are turned into tokens.
use crate::names::nid;
use crate::reg::P;
use scale_decode::IntoVisitor;
use serde_json::{json, Value};
use std::any::TypeId;
use std::borrow::{Cow, ToOwned};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, LinkedList, VecDeque};
use std::marker::PhantomData;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok(pub &'static str, pub Vec<u32>);
pub type Toks = Vec<Tok>;

pub fn toks_json(t: &Toks) -> Value {
    Value::Array(t.iter().map(|t| json!([t.0, t.1])).collect())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    Named,
    Unnamed,
    Unit,
}
impl Style {
    fn label(self) -> &'static str {
        match self {
            Style::Named => "named",
            Style::Unnamed => "unnamed",
            Style::Unit => "unit",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fld {
    pub n: u32,
    pub skip: bool,
    pub t: usize,
    pub d: Toks,
}
impl Fld {
    pub fn of<T: Tgt>(b: &mut Table, n: &str) -> Fld {
        Fld { n: if n.starts_with('#') { 0 } else { nid(n) }, skip: false, t: b.of::<T>(), d: vec![] }
    }
    pub fn skip<T: ToToks + Default>(n: &str) -> Fld {
        let mut d = vec![];
        T::default().toks(&mut d);
        Fld { n: if n.starts_with('#') { 0 } else { nid(n) }, skip: true, t: 0, d }
    }
}

#[derive(Clone, Debug)]
pub struct TVar {
    pub n: u32,
    pub style: Style,
    pub fs: Vec<Fld>,
}

#[derive(Clone, Debug)]
pub enum D {
    Pending,
    Num { p: P, nz: bool },
    Bool,
    Char,
    Str,
    Bits,
    Phantom,
    Any,
    Wrap(usize),
    Dur(usize),
    Range(usize),
    List(usize),
    Set(usize),
    Heap(usize),
    Arr(usize, u32),
    Hash(usize, u32),
    Map(usize),
    Opt(usize),
    Res(usize, usize),
    Tup(Vec<usize>),
    Struct { style: Style, fs: Vec<Fld> },
    Enum { vs: Vec<TVar> },
}

/// All target descriptions; index 0 is unused, so that indices agree with TLA+ sequences.
pub struct Table {
    pub ds: Vec<D>,
    /// what the types are called, without paths
    pub rust: Vec<String>,
    known: HashMap<TypeId, usize>,
}
impl Table {
    pub fn new() -> Table {
        Table { ds: vec![D::Pending], rust: vec![String::new()], known: HashMap::new() }
    }
    pub fn of<T: Tgt>(&mut self) -> usize {
        if let Some(i) = self.known.get(&TypeId::of::<T>()) {
            return *i;
        }
        let i = self.ds.len();
        self.ds.push(D::Pending);
        self.rust.push(short_name(std::any::type_name::<T>()));
        self.known.insert(TypeId::of::<T>(), i);
        let d = T::desc(self);
        self.ds[i] = d;
        i
    }
    pub fn json(&self) -> Value {
        fn fs(fs: &[Fld]) -> Value {
            Value::Array(
                fs.iter().map(|f| json!({"n": f.n, "skip": f.skip, "t": f.t, "d": toks_json(&f.d)})).collect(),
            )
        }
        Value::Array(
            self.ds[1..]
                .iter()
                .zip(&self.rust[1..])
                .map(|(d, rust)| {
                    let mut d = match d {
                    D::Pending => unreachable!(),
                    D::Num { p, nz } => json!({"k": "num", "p": p.label(), "nz": nz}),
                    D::Bool => json!({"k": "bool"}),
                    D::Char => json!({"k": "char"}),
                    D::Str => json!({"k": "str"}),
                    D::Bits => json!({"k": "bits"}),
                    D::Phantom => json!({"k": "phantom"}),
                    D::Any => json!({"k": "any"}),
                    D::Wrap(t) => json!({"k": "wrap", "t": t}),
                    D::Dur(t) => json!({"k": "dur", "t": t}),
                    D::Range(t) => json!({"k": "range", "t": t}),
                    D::List(t) => json!({"k": "list", "t": t}),
                    D::Set(t) => json!({"k": "set", "t": t}),
                    D::Heap(t) => json!({"k": "heap", "t": t}),
                    D::Arr(t, n) => json!({"k": "arr", "t": t, "n": n}),
                    D::Hash(t, n) => json!({"k": "hash", "t": t, "n": n}),
                    D::Map(t) => json!({"k": "map", "t": t}),
                    D::Opt(t) => json!({"k": "opt", "t": t}),
                    D::Res(t, e) => json!({"k": "res", "t": t, "e": e}),
                    D::Tup(ts) => json!({"k": "tup", "ts": ts}),
                    D::Struct { style, fs: f } => json!({"k": "struct", "style": style.label(), "fs": fs(f)}),
                    D::Enum { vs } => json!({"k": "enum", "vs": vs.iter().map(|v|
                        json!({"n": v.n, "style": v.style.label(), "fs": fs(&v.fs)})).collect::<Vec<_>>()}),
                    };
                    d["rust"] = json!(rust);
                    d
                })
                .collect(),
        )
    }
}

fn short_name(s: &str) -> String {
    let mut out = String::new();
    for word in s.split_inclusive(|c: char| !(c.is_alphanumeric() || c == '_')) {
        match word.strip_suffix(':') {
            Some(_) => {}
            None => out.push_str(word),
        }
    }
    out
}

pub trait ToToks {
    fn toks(&self, o: &mut Toks);
}
pub trait Tgt: IntoVisitor + ToToks + Sized + 'static {
    fn desc(b: &mut Table) -> D;
}

pub fn num_tok(neg: bool, mag: u128) -> Tok {
    let mut bs: Vec<u32> = mag.to_le_bytes().iter().map(|b| *b as u32).collect();
    while bs.last() == Some(&0) {
        bs.pop();
    }
    Tok(if neg { "-" } else { "+" }, bs)
}
/// the number as it appears in an error message
pub fn parse_num(s: &str) -> Option<Tok> {
    match s.strip_prefix('-') {
        Some(m) => m.parse::<u128>().ok().map(|m| num_tok(true, m)),
        None => s.parse::<u128>().ok().map(|m| num_tok(false, m)),
    }
}
pub fn bytes_tok(tag: &'static str, bs: &[u8]) -> Tok {
    Tok(tag, bs.iter().map(|b| *b as u32).collect())
}

macro_rules! nums {
    ($($t:ty => $p:ident, $nz:expr, |$v:ident| $e:expr;)*) => { $(
        impl ToToks for $t {
            fn toks(&self, o: &mut Toks) {
                let $v = *self;
                let n = $e;
                #[allow(unused_comparisons)]
                o.push(num_tok(n < 0, if n < 0 { (n as i128).unsigned_abs() } else { n as u128 }));
            }
        }
        impl Tgt for $t {
            fn desc(_: &mut Table) -> D { D::Num { p: P::$p, nz: $nz } }
        }
    )* };
}
nums! {
    u8 => U8, false, |v| v; u16 => U16, false, |v| v; u32 => U32, false, |v| v; u64 => U64, false, |v| v;
    u128 => U128, false, |v| v; usize => U64, false, |v| v;
    i8 => I8, false, |v| v; i16 => I16, false, |v| v; i32 => I32, false, |v| v; i64 => I64, false, |v| v;
    i128 => I128, false, |v| v; isize => I64, false, |v| v;
    NonZeroU8 => U8, true, |v| v.get(); NonZeroU16 => U16, true, |v| v.get(); NonZeroU32 => U32, true, |v| v.get();
    NonZeroU64 => U64, true, |v| v.get(); NonZeroU128 => U128, true, |v| v.get();
    NonZeroI8 => I8, true, |v| v.get(); NonZeroI16 => I16, true, |v| v.get(); NonZeroI32 => I32, true, |v| v.get();
    NonZeroI64 => I64, true, |v| v.get(); NonZeroI128 => I128, true, |v| v.get();
}

impl ToToks for bool {
    fn toks(&self, o: &mut Toks) {
        o.push(Tok("bool", vec![*self as u32]));
    }
}
impl Tgt for bool {
    fn desc(_: &mut Table) -> D {
        D::Bool
    }
}
impl ToToks for char {
    fn toks(&self, o: &mut Toks) {
        o.push(Tok("char", num_tok(false, *self as u128).1));
    }
}
impl Tgt for char {
    fn desc(_: &mut Table) -> D {
        D::Char
    }
}
impl ToToks for String {
    fn toks(&self, o: &mut Toks) {
        o.push(bytes_tok("str", self.as_bytes()));
    }
}
impl ToToks for str {
    fn toks(&self, o: &mut Toks) {
        o.push(bytes_tok("str", self.as_bytes()));
    }
}
impl Tgt for String {
    fn desc(_: &mut Table) -> D {
        D::Str
    }
}
impl ToToks for scale_bits::Bits {
    fn toks(&self, o: &mut Toks) {
        o.push(Tok("bits", self.iter().map(|b| b as u32).collect()));
    }
}
impl Tgt for scale_bits::Bits {
    fn desc(_: &mut Table) -> D {
        D::Bits
    }
}
impl<T> ToToks for PhantomData<T> {
    fn toks(&self, o: &mut Toks) {
        o.push(Tok("phantom", vec![]));
    }
}
impl<T: 'static> Tgt for PhantomData<T> {
    fn desc(_: &mut Table) -> D {
        D::Phantom
    }
}

macro_rules! wraps {
    ($($w:ident |$s:ident| $e:expr;)*) => { $(
        impl<T: ToToks> ToToks for $w<T> {
            fn toks(&self, o: &mut Toks) { let $s = self; $e.toks(o) }
        }
        impl<T: Tgt> Tgt for $w<T> {
            fn desc(b: &mut Table) -> D { D::Wrap(b.of::<T>()) }
        }
    )* };
}
use codec::Compact;
wraps! { Box |s| (**s); Rc |s| (**s); Arc |s| (**s); Compact |s| s.0; }

impl<T: ToToks> ToToks for [T] {
    fn toks(&self, o: &mut Toks) {
        seq(self.len(), self.iter(), o)
    }
}
impl<T: ?Sized + ToOwned + ToToks> ToToks for Cow<'static, T> {
    fn toks(&self, o: &mut Toks) {
        (**self).toks(o)
    }
}
impl<T: ?Sized + ToOwned + ToToks> Tgt for Cow<'static, T>
where
    T::Owned: Tgt,
{
    fn desc(b: &mut Table) -> D {
        D::Wrap(b.of::<T::Owned>())
    }
}

impl ToToks for Duration {
    fn toks(&self, o: &mut Toks) {
        o.push(Tok("dur", vec![]));
        self.as_secs().toks(o);
        self.subsec_nanos().toks(o);
    }
}
impl Tgt for Duration {
    fn desc(b: &mut Table) -> D {
        D::Dur(b.of::<(u64, u32)>())
    }
}
// ranges are shown as the pair of their bounds
impl<T: ToToks> ToToks for Range<T> {
    fn toks(&self, o: &mut Toks) {
        o.push(Tok("(", vec![2]));
        self.start.toks(o);
        self.end.toks(o);
    }
}
impl<T: Tgt> Tgt for Range<T> {
    fn desc(b: &mut Table) -> D {
        D::Range(b.of::<(T, T)>())
    }
}
impl<T: ToToks> ToToks for RangeInclusive<T> {
    fn toks(&self, o: &mut Toks) {
        o.push(Tok("(", vec![2]));
        self.start().toks(o);
        self.end().toks(o);
    }
}
impl<T: Tgt> Tgt for RangeInclusive<T> {
    fn desc(b: &mut Table) -> D {
        D::Range(b.of::<(T, T)>())
    }
}

fn seq<'a, T: ToToks + 'a>(n: usize, it: impl Iterator<Item = &'a T>, o: &mut Toks) {
    o.push(Tok("[", vec![n as u32]));
    for x in it {
        x.toks(o);
    }
}
macro_rules! lists {
    ($($w:ident => $d:ident [$($b:tt)*];)*) => { $(
        impl<T: ToToks> ToToks for $w<T> {
            fn toks(&self, o: &mut Toks) { seq(self.len(), self.iter(), o) }
        }
        impl<T: Tgt $($b)*> Tgt for $w<T> {
            fn desc(b: &mut Table) -> D { D::$d(b.of::<T>()) }
        }
    )* };
}
lists! { Vec => List []; VecDeque => List []; LinkedList => List []; BTreeSet => Set [+ Ord]; }
impl<T: ToToks + Ord + Clone> ToToks for BinaryHeap<T> {
    fn toks(&self, o: &mut Toks) {
        let v = self.clone().into_sorted_vec();
        seq(v.len(), v.iter(), o)
    }
}
impl<T: Tgt + Ord + Clone> Tgt for BinaryHeap<T> {
    fn desc(b: &mut Table) -> D {
        D::Heap(b.of::<T>())
    }
}
impl<T: ToToks, const N: usize> ToToks for [T; N] {
    fn toks(&self, o: &mut Toks) {
        seq(N, self.iter(), o)
    }
}
impl<T: Tgt, const N: usize> Tgt for [T; N] {
    fn desc(b: &mut Table) -> D {
        D::Arr(b.of::<T>(), N as u32)
    }
}
macro_rules! hashes {
    ($($t:ident $n:literal,)*) => { $(
        impl ToToks for primitive_types::$t {
            fn toks(&self, o: &mut Toks) { seq($n, self.as_bytes().iter(), o) }
        }
        impl Tgt for primitive_types::$t {
            fn desc(b: &mut Table) -> D { D::Hash(b.of::<u8>(), $n) }
        }
    )* };
}
hashes! { H128 16, H160 20, H256 32, H384 48, H512 64, H768 96, }

impl<T: ToToks> ToToks for BTreeMap<String, T> {
    fn toks(&self, o: &mut Toks) {
        o.push(Tok("map", vec![self.len() as u32]));
        for (k, v) in self {
            o.push(Tok("key", vec![nid(k)]));
            v.toks(o);
        }
    }
}
impl<T: Tgt> Tgt for BTreeMap<String, T> {
    fn desc(b: &mut Table) -> D {
        D::Map(b.of::<T>())
    }
}
impl<T: ToToks> ToToks for Option<T> {
    fn toks(&self, o: &mut Toks) {
        match self {
            Some(x) => {
                o.push(Tok("var", vec![nid("Some"), 1]));
                x.toks(o)
            }
            None => o.push(Tok("var", vec![nid("None"), 0])),
        }
    }
}
impl<T: Tgt> Tgt for Option<T> {
    fn desc(b: &mut Table) -> D {
        D::Opt(b.of::<T>())
    }
}
impl<T: ToToks, E: ToToks> ToToks for Result<T, E> {
    fn toks(&self, o: &mut Toks) {
        match self {
            Ok(x) => {
                o.push(Tok("var", vec![nid("Ok"), 1]));
                x.toks(o)
            }
            Err(x) => {
                o.push(Tok("var", vec![nid("Err"), 1]));
                x.toks(o)
            }
        }
    }
}
impl<T: Tgt, E: Tgt> Tgt for Result<T, E> {
    fn desc(b: &mut Table) -> D {
        let t = b.of::<T>();
        let e = b.of::<E>();
        D::Res(t, e)
    }
}

macro_rules! tuples {
    ($(($($t:ident)*))*) => { $(
        #[allow(non_snake_case)]
        impl<$($t: ToToks),*> ToToks for ($($t,)*) {
            fn toks(&self, o: &mut Toks) {
                let ($($t,)*) = self;
                let at = o.len();
                o.push(Tok("(", vec![]));
                #[allow(unused_mut)]
                let mut n = 0;
                $( $t.toks(o); n += 1; )*
                o[at].1.push(n);
            }
        }
        impl<$($t: Tgt),*> Tgt for ($($t,)*) {
            #[allow(unused)]
            fn desc(b: &mut Table) -> $crate::desc::D { $crate::desc::D::Tup(vec![$(b.of::<$t>()),*]) }
        }
    )* };
}
tuples! {
    () (TA) (TA TB) (TA TB TC) (TA TB TC TD) (TA TB TC TD TE) (TA TB TC TD TE TF) (TA TB TC TD TE TF TG) (TA TB TC TD TE TF TG TH) (TA TB TC TD TE TF TG TH TI)
    (TA TB TC TD TE TF TG TH TI TJ) (TA TB TC TD TE TF TG TH TI TJ TK) (TA TB TC TD TE TF TG TH TI TJ TK TL) (TA TB TC TD TE TF TG TH TI TJ TK TL TM)
    (TA TB TC TD TE TF TG TH TI TJ TK TL TM TN) (TA TB TC TD TE TF TG TH TI TJ TK TL TM TN TO) (TA TB TC TD TE TF TG TH TI TJ TK TL TM TN TO TP)
    (TA TB TC TD TE TF TG TH TI TJ TK TL TM TN TO TP TQ) (TA TB TC TD TE TF TG TH TI TJ TK TL TM TN TO TP TQ TR) (TA TB TC TD TE TF TG TH TI TJ TK TL TM TN TO TP TQ TR TS)
    (TA TB TC TD TE TF TG TH TI TJ TK TL TM TN TO TP TQ TR TS TT)
}

/// `fld!(b, name, Type)` or `fld!(b, name, Type, skip)`
#[macro_export]
macro_rules! fld {
    ($b:ident, $n:expr, $t:ty) => {
        $crate::desc::Fld::of::<$t>($b, $n)
    };
    ($b:ident, $n:expr, $t:ty, skip) => {
        $crate::desc::Fld::skip::<$t>($n)
    };
}

/// Describe a struct with named fields: `impl_named!(Foo { a: u8, b: String = skip })`, or
/// `impl_named!([T: Tgt] Foo<T> { ... })`
#[macro_export]
macro_rules! impl_named {
    ([$($g:tt)*] $name:ty { $($f:ident : $t:ty $(= $skip:ident)?),* $(,)? }) => {
        impl<$($g)*> $crate::desc::ToToks for $name {
            #[allow(unused)]
            fn toks(&self, o: &mut $crate::desc::Toks) {
                let at = o.len();
                o.push($crate::desc::Tok("{", vec![]));
                let mut n = 0;
                $( $crate::desc::ToToks::toks(&self.$f, o); n += 1; )*
                o[at].1.push(n);
            }
        }
        impl<$($g)*> $crate::desc::Tgt for $name {
            #[allow(unused)]
            fn desc(b: &mut $crate::desc::Table) -> $crate::desc::D {
                $crate::desc::D::Struct {
                    style: $crate::desc::Style::Named,
                    fs: vec![ $( $crate::fld!(b, stringify!($f), $t $(, $skip)?) ),* ],
                }
            }
        }
    };
    ($name:ident $rest:tt) => { $crate::impl_named!([] $name $rest); };
}

/// Describe a tuple struct: `impl_unnamed!(Foo (x: u8, y: String = skip))`; the names are only used here.
#[macro_export]
macro_rules! impl_unnamed {
    ([$($g:tt)*] $name:ident [$($ga:tt)*] ( $($f:ident : $t:ty $(= $skip:ident)?),* $(,)? )) => {
        impl<$($g)*> $crate::desc::ToToks for $name<$($ga)*> {
            #[allow(unused)]
            fn toks(&self, o: &mut $crate::desc::Toks) {
                let at = o.len();
                o.push($crate::desc::Tok("{", vec![]));
                let mut n = 0;
                let $name ( $($f),* ) = self;
                $( $crate::desc::ToToks::toks($f, o); n += 1; )*
                o[at].1.push(n);
            }
        }
        impl<$($g)*> $crate::desc::Tgt for $name<$($ga)*> {
            #[allow(unused)]
            fn desc(b: &mut $crate::desc::Table) -> $crate::desc::D {
                $crate::desc::D::Struct {
                    style: $crate::desc::Style::Unnamed,
                    fs: vec![ $( $crate::fld!(b, "#", $t $(, $skip)?) ),* ],
                }
            }
        }
    };
    ($name:ident $rest:tt) => { $crate::impl_unnamed!([] $name [] $rest); };
}

/// Describe an enum:
/// `impl_enum!(Foo { unit A, tuple B(x: u8), named C { a: u8, b: u16 = skip } })`
#[macro_export]
macro_rules! impl_enum {
    ([$($g:tt)*] $name:ident [$($ga:tt)*] { $($style:ident $v:ident $( ( $($tf:ident : $tt:ty $(= $ts:ident)?),* ) )?
            $( { $($nf:ident : $nt:ty $(= $ns:ident)?),* } )? ),* $(,)? }) => {
        impl<$($g)*> $crate::desc::ToToks for $name<$($ga)*> {
            #[allow(unused)]
            fn toks(&self, o: &mut $crate::desc::Toks) {
                let at = o.len();
                match self {
                    $( $name::$v $( ( $($tf),* ) )? $( { $($nf),* } )? => {
                        o.push($crate::desc::Tok("var", vec![$crate::names::nid(stringify!($v))]));
                        let mut n = 0;
                        $( $( $crate::desc::ToToks::toks($tf, o); n += 1; )* )?
                        $( $( $crate::desc::ToToks::toks($nf, o); n += 1; )* )?
                        o[at].1.push(n);
                    } )*
                }
            }
        }
        impl<$($g)*> $crate::desc::Tgt for $name<$($ga)*> {
            #[allow(unused)]
            fn desc(b: &mut $crate::desc::Table) -> $crate::desc::D {
                $crate::desc::D::Enum { vs: vec![ $(
                    $crate::desc::TVar {
                        n: $crate::names::nid(stringify!($v)),
                        style: $crate::style!($style),
                        fs: vec![
                            $( $( $crate::fld!(b, "#", $tt $(, $ts)?) ),* )?
                            $( $( $crate::fld!(b, stringify!($nf), $nt $(, $ns)?) ),* )?
                        ],
                    }
                ),* ] }
            }
        }
    };
    ($name:ident $rest:tt) => { $crate::impl_enum!([] $name [] $rest); };
}
#[macro_export]
macro_rules! style {
    (unit) => {
        $crate::desc::Style::Unit
    };
    (tuple) => {
        $crate::desc::Style::Unnamed
    };
    (named) => {
        $crate::desc::Style::Named
    };
}
