//! Sessions: a scripted visitor which makes arbitrary use of the handles it is given, and logs
//! everything it does and sees. The choices come from a generator or from a given script.
use crate::any::num256;
use crate::catalog::{Cat, Stored};
use crate::desc::*;
use crate::names::{name, nid, onid};
use crate::out::*;
use crate::reg::{Rid, BIG};
use crate::rng::Rng;
use scale_decode::visitor::{
    decode_with_visitor, types::*, DecodeAsTypeResult, DecodeError, DecodeItemIterator, IgnoreVisitor, TypeIdFor,
    Unexpected, Visitor, VisitorWithCrateError,
};
use scale_decode::{Error, TypeResolver};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::rc::Rc;

/// What a random session is like.
#[derive(Clone, Debug)]
pub struct Profile {
    /// events after which we want to be done
    pub fuel: usize,
    /// weights of: item, next, later, clone, skip, tuple, typed item, typed later, exit
    pub ops: [usize; 9],
    /// weights of: norm, ign, take, takerej, decl, fall, none, vwce
    pub modes: [usize; 8],
    /// chance in 100 to reject
    pub reject: usize,
    /// chance in 100 to propagate errors
    pub prop: usize,
    /// can we go on after an item of a list was rejected? (Only if all of the input is well formed
    /// and nobody moves the cursor by themselves.)
    pub recover: bool,
    /// operations on stored items after the end
    pub after: usize,
}
impl Profile {
    /// reads everything
    pub fn reader() -> Profile {
        Profile {
            fuel: 100_000,
            ops: [1, 0, 0, 0, 0, 0, 0, 0, 0],
            modes: [1, 0, 0, 0, 0, 0, 0, 0],
            reject: 0,
            prop: 100,
            recover: false,
            after: 0,
        }
    }
    pub fn mixed(fuel: usize) -> Profile {
        Profile {
            fuel,
            ops: [14, 8, 4, 1, 1, 1, 3, 3, 2],
            modes: [20, 4, 0, 0, 0, 2, 1, 3],
            reject: 0,
            prop: 40,
            recover: true,
            after: 3,
        }
    }
}

pub enum Script {
    Random(Rng, Profile),
    /// the events we expect
    Fixed(Vec<Value>),
}

pub struct Cx {
    base: usize,
    len: usize,
    types: usize,
    script: RefCell<Script>,
    pub log: RefCell<Vec<Value>>,
    rejections: Cell<u32>,
    pub diverged: Cell<bool>,
    typed: Vec<usize>,
}

#[derive(Debug)]
pub enum SErr {
    Reject(u32),
    Decode(DecodeError),
    Crate(Error),
}
impl From<DecodeError> for SErr {
    fn from(e: DecodeError) -> Self {
        SErr::Decode(e)
    }
}
impl From<SErr> for Error {
    fn from(e: SErr) -> Self {
        match e {
            SErr::Reject(n) => Error::custom_string(format!("rejection {n}")),
            SErr::Decode(e) => e.into(),
            SErr::Crate(e) => e,
        }
    }
}
impl SErr {
    /// through VisitorWithCrateError and back
    fn of_crate(e: Error) -> SErr {
        let msg = e.to_string();
        if let scale_decode::error::ErrorKind::Custom(c) = e.kind() {
            if let Some(n) = c.to_string().strip_prefix("rejection ").and_then(|n| n.parse().ok()) {
                return SErr::Reject(n);
            }
        }
        let _ = msg;
        SErr::Crate(e)
    }
    fn class(&self) -> String {
        match self {
            SErr::Reject(_) => "rejected".into(),
            SErr::Decode(e) => decode_error(e).0,
            SErr::Crate(e) => error_kind(e.kind()).0,
        }
    }
    fn is_rejection(&self) -> bool {
        matches!(self, SErr::Reject(_)) || self.class().starts_with("unexpected")
    }
}

pub type Shelf<'s, 'r, R> = Vec<Stored<'s, 'r, R>>;
type SRes<'s, 'r, R> = Result<Shelf<'s, 'r, R>, SErr>;

/// r, n, cls of an event
fn res_json<T>(r: Option<&Result<T, SErr>>) -> (Value, Value, Value) {
    match r {
        None => (json!("none"), json!(0), json!("")),
        Some(Ok(_)) => (json!("ok"), json!(0), json!("")),
        Some(Err(SErr::Reject(n))) => (json!("rej"), json!(n), json!("")),
        Some(Err(e)) => (json!("err"), json!(0), json!(e.class())),
    }
}

impl Cx {
    pub fn new(input: &[u8], types: usize, script: Script, typed: Vec<usize>) -> Cx {
        Cx {
            base: input.as_ptr() as usize,
            len: input.len(),
            types,
            script: RefCell::new(script),
            log: RefCell::new(vec![]),
            rejections: Cell::new(0),
            diverged: Cell::new(false),
            typed,
        }
    }
    fn emit(&self, v: Value) {
        self.log.borrow_mut().push(v)
    }
    /// A view into the input as its offset and length. The offset of empty slices means nothing.
    fn slice(&self, s: &[u8]) -> Value {
        if s.is_empty() {
            return json!([-1, 0]);
        }
        let p = s.as_ptr() as usize;
        if p < self.base || p + s.len() > self.base + self.len {
            return json!([-9, s.len()]); // not a part of the input
        }
        json!([p - self.base, s.len()])
    }
    fn maybe_slice(&self, s: Result<&[u8], DecodeError>) -> Value {
        match s {
            Ok(s) => json!(["", self.slice(s)]),
            Err(e) => json!([decode_error(&e).0, [-1, 0]]),
        }
    }
    /// The next expected event, when there is a script.
    fn expected(&self) -> Option<Option<Value>> {
        match &*self.script.borrow() {
            Script::Random(..) => None,
            Script::Fixed(evs) => Some(if self.diverged.get() { None } else { evs.get(self.log.borrow().len()).cloned() }),
        }
    }
    fn random<T>(&self, f: impl FnOnce(&mut Rng, &Profile) -> T) -> T {
        match &mut *self.script.borrow_mut() {
            Script::Random(r, p) => f(r, p),
            Script::Fixed(_) => unreachable!(),
        }
    }
    fn tired(&self) -> bool {
        let n = self.log.borrow().len();
        match &*self.script.borrow() {
            Script::Random(_, p) => n >= p.fuel,
            Script::Fixed(_) => false,
        }
    }
    /// Accept or reject in a callback which logs `op`?
    fn verdict(&self, op: &str) -> Result<(), SErr> {
        let rej = match self.expected() {
            Some(Some(ev)) if ev["op"] == op => ev["do"] == "rej",
            Some(_) => {
                self.diverged.set(true);
                false
            }
            None => self.random(|r, p| r.pct(p.reject)),
        };
        if rej {
            let n = self.rejections.get() + 1;
            self.rejections.set(n);
            Err(SErr::Reject(n))
        } else {
            Ok(())
        }
    }
    fn do_json(v: &Result<(), SErr>) -> (Value, Value) {
        match v {
            Err(SErr::Reject(n)) => (json!("rej"), json!(n)),
            _ => (json!("ok"), json!(0)),
        }
    }
    pub fn start(&self) -> (Mode, usize) {
        match self.expected() {
            Some(Some(ev)) => (Mode::of(ev["m"].as_str().unwrap_or("")), ev["k"].as_u64().unwrap_or(0) as usize),
            Some(None) => (Mode::Norm, 0),
            None => self.random(|r, p| pick_mode(r, p, 0)),
        }
    }
    pub fn set_profile(&self, f: impl FnOnce(&mut Profile)) {
        if let Script::Random(_, p) = &mut *self.script.borrow_mut() {
            f(p)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Norm,
    Ign,
    Take,
    TakeRej,
    Decl,
    Fall,
    Nothing,
    Vwce,
    VIgn,
    VTake,
    VTakeRej,
    VDecl,
    VFall,
    VNothing,
}
const MODES: [(Mode, &str); 14] = [
    (Mode::Norm, "norm"),
    (Mode::Ign, "ign"),
    (Mode::Take, "take"),
    (Mode::TakeRej, "takerej"),
    (Mode::Decl, "decl"),
    (Mode::Fall, "fall"),
    (Mode::Nothing, "none"),
    (Mode::Vwce, "vwce"),
    // the others behind the adapter to the crate's error
    (Mode::VIgn, "vign"),
    (Mode::VTake, "vtake"),
    (Mode::VTakeRej, "vtakerej"),
    (Mode::VDecl, "vdecl"),
    (Mode::VFall, "vfall"),
    (Mode::VNothing, "vnone"),
];
impl Mode {
    fn of(s: &str) -> Mode {
        MODES.iter().find(|m| m.1 == s).map(|m| m.0).unwrap_or(Mode::Norm)
    }
    fn label(self) -> &'static str {
        MODES.iter().find(|m| m.0 == self).unwrap().1
    }
}
fn weighted(r: &mut Rng, ws: &[usize]) -> usize {
    let total: usize = ws.iter().sum();
    let mut x = r.below(total.max(1));
    for (i, w) in ws.iter().enumerate() {
        if x < *w {
            return i;
        }
        x -= w;
    }
    0
}
fn pick_mode(r: &mut Rng, p: &Profile, _depth: usize) -> (Mode, usize) {
    let mut i = weighted(r, &p.modes);
    if i == 7 && r.pct(50) {
        // another behind the adapter, of those there are
        let j = weighted(r, &p.modes[..7]);
        i = if j == 0 { 7 } else { 7 + j };
    }
    let m = MODES[i].0;
    let k = match m {
        Mode::Take | Mode::TakeRej | Mode::Decl | Mode::VTake | Mode::VTakeRej | Mode::VDecl => r.below(6),
        _ => 0,
    };
    (m, k)
}

/// The scripted visitor.
pub struct Sv<R: TypeResolver> {
    pub cx: Rc<Cx>,
    pub cat: Rc<Cat<R>>,
    pub m: Mode,
    pub k: usize,
    pub tag: u32,
}
/// Only has a fallback.
struct Fall<R>(Rc<Cx>, PhantomData<R>);
/// Has nothing at all.
struct Nothing<R>(PhantomData<R>);

/// Decode something with a visitor of the given mode; `f` does the decoding.
macro_rules! with_mode {
    ($cx:expr, $cat:expr, $m:expr, $k:expr, $mk:expr, |$v:ident| $call:expr) => {{
        let cx = $cx.clone();
        match $m {
            Mode::Norm | Mode::Take | Mode::TakeRej | Mode::Decl => {
                let $v = Sv { cx, cat: $cat.clone(), m: $m, k: $k, tag: 0 };
                $call
            }
            Mode::Ign => {
                let new = cx.log.borrow().len() % 2 == 0;
                let $v = if new { IgnoreVisitor::<R>::new() } else { IgnoreVisitor::<R>::default() };
                $mk($call, |r: Result<(), DecodeError>| r.map(|_| vec![]).map_err(SErr::Decode))
            }
            Mode::Fall => {
                let $v = Fall::<R>(cx, PhantomData);
                $mk($call, |r: Result<(), SErr>| r.map(|_| vec![]))
            }
            Mode::Nothing => {
                let $v = Nothing::<R>(PhantomData);
                $mk($call, |r: Result<(), DecodeError>| r.map(|_| vec![]).map_err(SErr::Decode))
            }
            Mode::Vwce | Mode::VTake | Mode::VTakeRej | Mode::VDecl => {
                let m = match $m {
                    Mode::VTake => Mode::Take,
                    Mode::VTakeRej => Mode::TakeRej,
                    Mode::VDecl => Mode::Decl,
                    _ => Mode::Norm,
                };
                let $v = VisitorWithCrateError(Sv { cx, cat: $cat.clone(), m, k: $k, tag: 0 });
                $mk($call, |r: Result<_, Error>| r.map_err(SErr::of_crate))
            }
            Mode::VIgn => {
                let $v = VisitorWithCrateError(IgnoreVisitor::<R>::new());
                $mk($call, |r: Result<(), Error>| r.map(|_| vec![]).map_err(SErr::of_crate))
            }
            Mode::VFall => {
                let $v = VisitorWithCrateError(Fall::<R>(cx, PhantomData));
                $mk($call, |r: Result<(), Error>| r.map(|_| vec![]).map_err(SErr::of_crate))
            }
            Mode::VNothing => {
                let $v = VisitorWithCrateError(Nothing::<R>(PhantomData));
                $mk($call, |r: Result<(), Error>| r.map(|_| vec![]).map_err(SErr::of_crate))
            }
        }
    }};
}

impl<R: Rid> Visitor for Nothing<R> {
    type Value<'s, 'r> = ();
    type Error = DecodeError;
    type TypeResolver = R;
}
impl<R: Rid> Visitor for Fall<R> {
    type Value<'s, 'r> = ();
    type Error = SErr;
    type TypeResolver = R;
    fn visit_unexpected<'s, 'r>(self, u: Unexpected) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let v = self.0.verdict("unexp");
        let (d, n) = Cx::do_json(&v);
        self.0.emit(json!({"op": "unexp", "label": unexpected_label(&u), "do": d, "n": n}));
        v
    }
}

macro_rules! sv_prims {
    ($($f:ident $t:ty, $p:literal;)*) => { $(
        fn $f<'s, 'r>(self, v: $t, t: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            let mut o = vec![];
            v.toks(&mut o);
            self.prim($p, o, json!([-1, 0]), t).map(|_| vec![])
        }
    )* };
}

impl<R: Rid> Sv<R> {
    fn prim(self, kind: &str, v: Toks, at: Value, t: R::TypeId) -> Result<(), SErr> {
        let verdict = self.cx.verdict("prim");
        let (d, n) = Cx::do_json(&verdict);
        self.cx.emit(json!({"op": "prim", "kind": kind, "v": toks_json(&v), "at": at, "ty": R::num(&t),
            "tag": self.tag, "do": d, "n": n}));
        verdict
    }
}

impl<R: Rid> Visitor for Sv<R> {
    type Value<'s, 'r> = Shelf<'s, 'r, R>;
    type Error = SErr;
    type TypeResolver = R;

    fn unchecked_decode_as_type<'s, 'r>(
        self,
        input: &mut &'s [u8],
        t: TypeIdFor<Self>,
        types: &'r R,
    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>> {
        self.cx.emit(json!({"op": "pre", "ty": R::num(&t), "at": self.cx.slice(input), "tag": self.tag,
            "same": types as *const R as usize == self.cx.types}));
        let k = self.k.min(input.len());
        match self.m {
            Mode::Take => {
                *input = &input[k..];
                // (these change what they are about and nothing else)
                let r: DecodeAsTypeResult<u8, u8> = DecodeAsTypeResult::Decoded(k as u8);
                let r = r.map_skipped(|_| -> Self { panic!("map_skipped") }).map_decoded(|x| (x, vec![]));
                r.map_decoded(|(x, v)| if x == k as u8 { Ok(v) } else { panic!("map_decoded") })
            }
            Mode::TakeRej => {
                *input = &input[k..];
                let n = self.cx.rejections.get() + 1;
                self.cx.rejections.set(n);
                DecodeAsTypeResult::Decoded(Err(SErr::Reject(n)))
            }
            Mode::Decl => {
                *input = &input[k..];
                let r: DecodeAsTypeResult<_, ()> = DecodeAsTypeResult::Skipped((self.cx, self.cat));
                let r = r.map_decoded(|_| panic!("map_decoded"));
                r.map_skipped(|(cx, cat)| Sv { m: Mode::Norm, k: 0, tag: 1, cx, cat })
            }
            _ => DecodeAsTypeResult::Skipped(self),
        }
    }
    sv_prims! {
        visit_bool bool, "bool"; visit_char char, "char";
        visit_u8 u8, "u8"; visit_u16 u16, "u16"; visit_u32 u32, "u32"; visit_u64 u64, "u64"; visit_u128 u128, "u128";
        visit_i8 i8, "i8"; visit_i16 i16, "i16"; visit_i32 i32, "i32"; visit_i64 i64, "i64"; visit_i128 i128, "i128";
    }
    fn visit_u256<'r>(self, v: &[u8; 32], t: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        let at = self.cx.slice(v);
        self.prim("u256", vec![num256(v, false)], at, t).map(|_| vec![])
    }
    fn visit_i256<'r>(self, v: &[u8; 32], t: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        let at = self.cx.slice(v);
        self.prim("i256", vec![num256(v, true)], at, t).map(|_| vec![])
    }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, t: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let cx = &self.cx;
        let verdict = cx.verdict("str");
        let (d, n) = Cx::do_json(&verdict);
        cx.emit(json!({"op": "str", "ty": R::num(&t), "tag": self.tag, "len": (v.len() as u64).min(BIG),
            "empty": v.is_empty(), "start": cx.slice(v.bytes_from_start()), "after": cx.maybe_slice(v.bytes_after()),
            "text": cx.maybe_slice(v.as_str().map(|s| s.as_bytes())), "do": d, "n": n}));
        verdict.map(|_| vec![])
    }
    fn visit_bitsequence<'s, 'r>(
        self,
        v: &mut BitSequence<'s>,
        t: TypeIdFor<Self>,
    ) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let cx = &self.cx;
        let how = match cx.expected() {
            Some(Some(ev)) => ev["how"].as_str().unwrap_or("").to_string(),
            Some(None) => "look".into(),
            None => cx.random(|r, _| r.pick(&["look", "decode", "decode", "again"]).to_string()),
        };
        let verdict = cx.verdict("bits");
        let (d, n) = Cx::do_json(&verdict);
        let a1 = cx.maybe_slice(v.bytes_after());
        let mut dec = json!(["", []]);
        if how != "look" {
            for _ in 0..(if how == "again" { 2 } else { 1 }) {
                dec = match v.decode().and_then(|it| {
                    let mut bits = vec![];
                    for b in it {
                        bits.push(b? as u8);
                    }
                    Ok(bits)
                }) {
                    Ok(bits) => json!(["", bits]),
                    Err(e) => json!([decode_error(&e).0, []]),
                };
            }
        }
        let a2 = cx.maybe_slice(v.bytes_after());
        cx.emit(json!({"op": "bits", "ty": R::num(&t), "tag": self.tag, "start": cx.slice(v.bytes_from_start()),
            "how": how, "a1": a1, "dec": dec, "a2": a2, "do": d, "n": n}));
        verdict.map(|_| vec![])
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, t: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.handle(v, t, "seq")
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, t: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.handle(v, t, "arr")
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, t: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.handle(v, t, "tup")
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, t: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.handle(v, t, "comp")
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, t: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.handle(v, t, "var")
    }
}

/// The handles, as far as they are alike.
trait Handle<'s, 'r, R: Rid> {
    fn left(&self) -> usize;
    fn empty(&mut self) -> bool;
    fn peek(&mut self) -> u32 {
        0
    }
    fn und(&self) -> &'s [u8];
    fn start(&self) -> &'s [u8];
    fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V, direct: bool) -> Option<Result<V::Value<'s, 'r>, V::Error>>;
    fn fetch(&mut self) -> Option<Result<Stored<'s, 'r, R>, DecodeError>>;
    fn skip(&mut self) -> Result<(), DecodeError>;
    fn tuple(&mut self) -> Option<Tuple<'s, 'r, R>> {
        None
    }
    fn typed(&mut self, cat: &Cat<R>, g: usize) -> Option<crate::catalog::Outcome>;
    fn list(&self) -> bool {
        false
    }
    /// index, name, path, fields and whether any is unnamed
    fn about(&mut self) -> About {
        (-1, 0, vec![], vec![], false)
    }
    /// names of the handle's inner parts, should they have their own account of things
    fn inner(&mut self) -> Option<(&'s [u8], &'s [u8])> {
        None
    }
}
macro_rules! handle_basics {
    ($v:ident, $ops:ident) => {
        fn und(&self) -> &'s [u8] {
            self.bytes_from_undecoded()
        }
        fn start(&self) -> &'s [u8] {
            self.bytes_from_start()
        }
        fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V, direct: bool) -> Option<Result<V::Value<'s, 'r>, V::Error>> {
            if direct {
                self.decode_item(v)
            } else {
                DecodeItemIterator::decode_item(self, v)
            }
        }
        fn fetch(&mut self) -> Option<Result<Stored<'s, 'r, R>, DecodeError>> {
            self.next().map(|r| r.map(Stored::$v))
        }
        fn skip(&mut self) -> Result<(), DecodeError> {
            self.skip_decoding()
        }
        fn typed(&mut self, cat: &Cat<R>, g: usize) -> Option<crate::catalog::Outcome> {
            cat.ops[&g].$ops(self)
        }
    };
}
impl<'s, 'r, R: Rid> Handle<'s, 'r, R> for Sequence<'s, 'r, R> {
    fn left(&self) -> usize {
        self.remaining()
    }
    fn empty(&mut self) -> bool {
        self.remaining() == 0
    }
    fn list(&self) -> bool {
        true
    }
    handle_basics!(Seq, seq);
}
impl<'s, 'r, R: Rid> Handle<'s, 'r, R> for Array<'s, 'r, R> {
    fn left(&self) -> usize {
        self.remaining()
    }
    fn empty(&mut self) -> bool {
        self.is_empty()
    }
    fn list(&self) -> bool {
        true
    }
    handle_basics!(Arr, arr);
}
impl<'s, 'r, R: Rid> Handle<'s, 'r, R> for Tuple<'s, 'r, R> {
    fn left(&self) -> usize {
        self.remaining()
    }
    fn empty(&mut self) -> bool {
        self.remaining() == 0
    }
    handle_basics!(Tup, tup);
}
fn about_fields<R: Rid>(c: &Composite<'_, '_, R>) -> Vec<(u32, u32)> {
    c.fields().iter().map(|f| (onid(f.name), R::num(&f.id))).collect()
}
impl<'s, 'r, R: Rid> Handle<'s, 'r, R> for Composite<'s, 'r, R> {
    fn left(&self) -> usize {
        self.remaining()
    }
    fn empty(&mut self) -> bool {
        self.remaining() == 0
    }
    fn peek(&mut self) -> u32 {
        onid(self.peek_name())
    }
    fn tuple(&mut self) -> Option<Tuple<'s, 'r, R>> {
        Some(self.as_tuple())
    }
    fn about(&mut self) -> About {
        (-1, onid(self.name()), self.path().map(nid).collect(), about_fields(self), self.has_unnamed_fields())
    }
    handle_basics!(Comp, comp);
}
impl<'s, 'r, R: Rid> Handle<'s, 'r, R> for Variant<'s, 'r, R> {
    fn left(&self) -> usize {
        // this needs `fields()`, which needs to borrow mutably; see `obs`
        usize::MAX
    }
    fn empty(&mut self) -> bool {
        self.fields().remaining() == 0
    }
    fn peek(&mut self) -> u32 {
        onid(self.fields().peek_name())
    }
    fn tuple(&mut self) -> Option<Tuple<'s, 'r, R>> {
        Some(self.fields().as_tuple())
    }
    fn about(&mut self) -> About {
        let (i, n) = (self.index() as i64, nid(self.name()));
        let path = self.fields().path().map(nid).collect();
        (i, n, path, about_fields(self.fields()), self.fields().has_unnamed_fields())
    }
    fn inner(&mut self) -> Option<(&'s [u8], &'s [u8])> {
        Some((self.fields().bytes_from_start(), self.fields().bytes_from_undecoded()))
    }
    fn und(&self) -> &'s [u8] {
        self.bytes_from_undecoded()
    }
    fn start(&self) -> &'s [u8] {
        self.bytes_from_start()
    }
    fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V, direct: bool) -> Option<Result<V::Value<'s, 'r>, V::Error>> {
        self.fields().item(v, direct)
    }
    fn fetch(&mut self) -> Option<Result<Stored<'s, 'r, R>, DecodeError>> {
        self.fields().fetch()
    }
    fn skip(&mut self) -> Result<(), DecodeError> {
        self.skip_decoding()
    }
    fn typed(&mut self, cat: &Cat<R>, g: usize) -> Option<crate::catalog::Outcome> {
        self.fields().typed(cat, g)
    }
}

/// index, name, path, fields and whether any is unnamed
type About = (i64, u32, Vec<u32>, Vec<(u32, u32)>, bool);

/// what operation to do next
enum Op {
    Item(Mode, usize),
    Next,
    Later(usize, Mode, usize),
    Clone(usize),
    Skip,
    Tuple,
    ItemT(usize),
    LaterT(usize, usize, u32),
    Exit(Exit),
}
#[derive(PartialEq)]
enum Exit {
    Ok,
    Rej,
    Prop,
}

fn stored_json<R: Rid>(cx: &Cx, s: &Stored<'_, '_, R>) -> Value {
    let (b, t, n, c) = match s {
        Stored::Seq(x) => (x.bytes(), R::num(x.type_id()), 0, false),
        Stored::Arr(x) => (x.bytes(), R::num(x.type_id()), 0, false),
        Stored::Tup(x) => (x.bytes(), R::num(x.type_id()), 0, x.is_compact()),
        Stored::Comp(x) => (x.bytes(), R::num(x.type_id()), onid(x.name()), x.is_compact()),
    };
    json!({"b": cx.slice(b), "ty": t, "name": n, "c": c})
}
fn no_item() -> Value {
    json!({"b": [-1, 0], "ty": 0, "name": 0, "c": false})
}

impl<R: Rid> Sv<R> {
    fn obs<'s, 'r, H: Handle<'s, 'r, R>>(&self, h: &mut H, left: usize, first: &About) -> Value
    where
        R: 'r,
    {
        let cx = &self.cx;
        let (s2, u2) = h.inner().map(|(a, b)| (cx.slice(a), cx.slice(b))).unwrap_or((json!([-1, 0]), json!([-1, 0])));
        json!({"rem": (left as u64).min(BIG), "empty": h.empty(), "peek": h.peek(), "und": cx.slice(h.und()),
            "start": cx.slice(h.start()), "s2": s2, "u2": u2, "about": h.about() == *first})
    }

    fn handle<'s, 'r, H: Handle<'s, 'r, R> + Left>(&self, h: &mut H, t: R::TypeId, kind: &str) -> SRes<'s, 'r, R>
    where
        R: 'r,
    {
        let first = h.about();
        let left = h.left_now();
        let o = self.obs(h, left, &first);
        let (index, nm, path, fs, unnamed) = first.clone();
        self.cx.emit(json!({"op": "open", "kind": kind, "ty": R::num(&t), "tag": self.tag, "o": o, "index": index,
            "name": nm, "path": path, "fs": fs, "unnamed": unnamed}));
        let mut shelf = vec![];
        self.work(h, &mut shelf, false, &first)?;
        Ok(shelf)
    }

    fn work<'s, 'r, H: Handle<'s, 'r, R> + Left>(
        &self,
        h: &mut H,
        shelf: &mut Shelf<'s, 'r, R>,
        derived: bool,
        first: &About,
    ) -> Result<(), SErr>
    where
        R: 'r,
    {
        let cx = &self.cx;
        let mut last: Option<SErr> = None;
        loop {
            match self.choose(h, shelf.len(), derived, &last) {
                Op::Item(m, k) => {
                    cx.emit(json!({"op": "item", "m": m.label(), "k": k}));
                    let direct = cx.log.borrow().len() % 3 != 0;
                    let r: Option<SRes<'s, 'r, R>> =
                        with_mode!(cx, self.cat, m, k, opt_map, |v| h.item(v, direct));
                    let (rr, n, cls) = res_json(r.as_ref());
                    let left = h.left_now();
                    cx.emit(json!({"op": "ret", "r": rr, "n": n, "cls": cls, "o": self.obs(h, left, first)}));
                    match r {
                        None => {}
                        Some(Ok(more)) => shelf.extend(more),
                        Some(Err(e)) => last = Some(e),
                    }
                }
                Op::Next => {
                    let r = h.fetch();
                    let (rr, cls, it) = match &r {
                        None => ("none", String::new(), no_item()),
                        Some(Ok(s)) => ("ok", String::new(), stored_json(cx, s)),
                        Some(Err(e)) => ("err", decode_error(e).0, no_item()),
                    };
                    let left = h.left_now();
                    cx.emit(json!({"op": "next", "r": rr, "cls": cls, "it": it, "o": self.obs(h, left, first)}));
                    match r {
                        None => {}
                        Some(Ok(s)) => shelf.push(s),
                        Some(Err(e)) => last = Some(SErr::Decode(e)),
                    }
                }
                Op::Later(i, m, k) => {
                    self.later(shelf, i, m, k);
                }
                Op::Clone(i) => {
                    let c = clone_stored(&shelf[i]);
                    cx.emit(json!({"op": "clone", "i": i + 1, "it": stored_json(cx, &c)}));
                    shelf.push(c);
                }
                Op::Skip => {
                    let r = h.skip();
                    let (rr, cls) = match &r {
                        Ok(()) => ("ok", String::new()),
                        Err(e) => ("err", decode_error(e).0),
                    };
                    let left = h.left_now();
                    cx.emit(json!({"op": "skip", "r": rr, "cls": cls, "o": self.obs(h, left, first)}));
                    if let Err(e) = r {
                        last = Some(SErr::Decode(e))
                    }
                }
                Op::Tuple => {
                    let mut t = h.tuple().expect("only where there are fields");
                    let (left, t_first) = (t.left_now(), t.about());
                    cx.emit(json!({"op": "tuple", "o": self.obs(&mut t, left, &t_first)}));
                    let r = self.work(&mut t, shelf, true, &t_first);
                    debug_assert!(r.is_ok());
                    let left = h.left_now();
                    cx.emit(json!({"op": "tend", "o": self.obs(h, left, first)}));
                }
                Op::ItemT(g) => {
                    let r = h.typed(&self.cat, g);
                    let mut ev = r.as_ref().map(outcome).unwrap_or_else(no_outcome);
                    let left = h.left_now();
                    ev["op"] = json!("itemt");
                    ev["g"] = json!(g);
                    ev["r"] = json!(if r.is_some() { "some" } else { "none" });
                    ev["o"] = self.obs(h, left, first);
                    cx.emit(ev);
                    if let Some(Err(e)) = r {
                        last = Some(SErr::Crate(e));
                    }
                }
                Op::LaterT(i, g, via) => self.later_t(shelf, i, g, via),
                Op::Exit(how) => {
                    if derived {
                        return Ok(());
                    }
                    return match how {
                        Exit::Ok => {
                            cx.emit(json!({"op": "exit", "do": "ok", "n": 0}));
                            Ok(())
                        }
                        Exit::Prop if last.is_some() => {
                            cx.emit(json!({"op": "exit", "do": "prop", "n": 0}));
                            Err(last.unwrap())
                        }
                        _ => {
                            let n = cx.rejections.get() + 1;
                            cx.rejections.set(n);
                            cx.emit(json!({"op": "exit", "do": "rej", "n": n}));
                            Err(SErr::Reject(n))
                        }
                    };
                }
            }
        }
    }

    fn later<'s, 'r>(&self, shelf: &mut Shelf<'s, 'r, R>, i: usize, m: Mode, k: usize)
    where
        R: 'r,
    {
        let cx = &self.cx;
        cx.emit(json!({"op": "later", "i": i + 1, "m": m.label(), "k": k}));
        let r: SRes<'s, 'r, R> = match &shelf[i] {
            Stored::Seq(x) => with_mode!(cx, self.cat, m, k, res_map, |v| x.decode_with_visitor(v)),
            Stored::Arr(x) => with_mode!(cx, self.cat, m, k, res_map, |v| x.decode_with_visitor(v)),
            Stored::Tup(x) => with_mode!(cx, self.cat, m, k, res_map, |v| x.decode_with_visitor(v)),
            Stored::Comp(x) => with_mode!(cx, self.cat, m, k, res_map, |v| x.decode_with_visitor(v)),
        };
        let (rr, n, cls) = res_json(Some(&r));
        cx.emit(json!({"op": "lret", "r": rr, "n": n, "cls": cls, "it": stored_json(cx, &shelf[i])}));
        if let Ok(more) = r {
            shelf.extend(more);
        }
    }
    fn later_t<'s, 'r>(&self, shelf: &Shelf<'s, 'r, R>, i: usize, g: usize, via: u32)
    where
        R: 'r,
    {
        let mut ev = outcome(&self.cat.ops[&g].later(&shelf[i], via));
        ev["op"] = json!("latert");
        ev["g"] = json!(g);
        ev["i"] = json!(i + 1);
        self.cx.emit(ev);
    }

    fn choose<'s, 'r, H: Handle<'s, 'r, R> + Left>(
        &self,
        h: &mut H,
        shelf: usize,
        derived: bool,
        last: &Option<SErr>,
    ) -> Op
    where
        R: 'r,
    {
        let cx = &self.cx;
        if let Some(ev) = cx.expected() {
            let ev = ev.unwrap_or(json!({"op": "?"}));
            let num = |k: &str| ev[k].as_u64().unwrap_or(0) as usize;
            let i = num("i").wrapping_sub(1);
            let mode = || Mode::of(ev["m"].as_str().unwrap_or(""));
            return match ev["op"].as_str().unwrap_or("") {
                "item" => Op::Item(mode(), num("k")),
                "next" => Op::Next,
                "later" if i < shelf => Op::Later(i, mode(), num("k")),
                "clone" if i < shelf => Op::Clone(i),
                "skip" => Op::Skip,
                "tuple" if h.tuple().is_some() => Op::Tuple,
                "itemt" if self.cat.ops.contains_key(&num("g")) => Op::ItemT(num("g")),
                "latert" if i < shelf && self.cat.ops.contains_key(&num("g")) => {
                    Op::LaterT(i, num("g"), (num("g") % 2) as u32)
                }
                "exit" if ev["do"] == "rej" => Op::Exit(Exit::Rej),
                "exit" if ev["do"] == "prop" => Op::Exit(Exit::Prop),
                "exit" => Op::Exit(Exit::Ok),
                "tend" => Op::Exit(Exit::Ok),
                _ => {
                    cx.diverged.set(true);
                    Op::Exit(Exit::Ok)
                }
            };
        }
        let tired = cx.tired();
        let left = h.left_now();
        let is_list = h.list();
        let typed = &cx.typed;
        cx.random(|r, p| {
            let bad_list = is_list && last.as_ref().is_some_and(|e| !p.recover || !e.is_rejection());
            if bad_list {
                return Op::Exit(if r.pct(p.reject) { Exit::Rej } else { Exit::Prop });
            }
            if let Some(_e) = last {
                if !derived && r.pct(p.prop) {
                    return Op::Exit(Exit::Prop);
                }
            }
            if tired {
                return Op::Exit(if last.is_some() && !derived { Exit::Prop } else { Exit::Ok });
            }
            let reading = p.ops[1..].iter().all(|w| *w == 0);
            if reading {
                return if left == 0 { Op::Exit(Exit::Ok) } else { item(r, p) };
            }
            let mut ws = p.ops;
            if shelf == 0 {
                ws[2] = 0;
                ws[3] = 0;
                ws[7] = 0;
            }
            if left == 0 {
                // there is nothing left to get, though we may ask
                ws[0] = ws[0].div_ceil(6);
                ws[1] = ws[1].div_ceil(6);
                ws[6] = ws[6].div_ceil(6);
                ws[8] = ws[8] * 3 + 4;
            }
            if derived {
                ws[5] = 0;
            }
            if typed.is_empty() {
                ws[6] = 0;
                ws[7] = 0;
            }
            match weighted(r, &ws) {
                0 => item(r, p),
                1 => Op::Next,
                2 => {
                    let (m, k) = pick_mode(r, p, 0);
                    Op::Later(r.below(shelf), m, k)
                }
                3 => Op::Clone(r.below(shelf)),
                4 => Op::Skip,
                5 if h.tuple().is_some() => Op::Tuple,
                6 => Op::ItemT(*r.pick(typed)),
                7 => {
                    let g = *r.pick(typed);
                    Op::LaterT(r.below(shelf), g, r.below(2) as u32)
                }
                _ => Op::Exit(if !derived && r.pct(p.reject) { Exit::Rej } else { Exit::Ok }),
            }
        })
    }
}
fn item(r: &mut Rng, p: &Profile) -> Op {
    let (m, k) = pick_mode(r, p, 0);
    Op::Item(m, k)
}
fn no_outcome() -> Value {
    json!({"ok": true, "v": [], "e": ["", []], "path": [], "disp": true})
}
fn opt_map<A, B>(r: Option<A>, f: impl FnOnce(A) -> B) -> Option<B> {
    r.map(f)
}
fn res_map<A, B>(r: A, f: impl FnOnce(A) -> B) -> B {
    f(r)
}
fn clone_stored<'s, 'r, R: Rid>(s: &Stored<'s, 'r, R>) -> Stored<'s, 'r, R> {
    match s {
        Stored::Seq(x) => Stored::Seq(x.clone()),
        Stored::Arr(x) => Stored::Arr(x.clone()),
        Stored::Tup(x) => Stored::Tup(x.clone()),
        Stored::Comp(x) => Stored::Comp(x.clone()),
    }
}
/// how many items are left (`Variant` can only tell when borrowed mutably)
trait Left {
    fn left_now(&mut self) -> usize;
}
impl<R: Rid> Left for Sequence<'_, '_, R> {
    fn left_now(&mut self) -> usize {
        self.remaining()
    }
}
impl<R: Rid> Left for Array<'_, '_, R> {
    fn left_now(&mut self) -> usize {
        self.remaining()
    }
}
impl<R: Rid> Left for Tuple<'_, '_, R> {
    fn left_now(&mut self) -> usize {
        self.remaining()
    }
}
impl<R: Rid> Left for Composite<'_, '_, R> {
    fn left_now(&mut self) -> usize {
        self.remaining()
    }
}
impl<R: Rid> Left for Variant<'_, '_, R> {
    fn left_now(&mut self) -> usize {
        self.fields().remaining()
    }
}

/// Run a session from the start; the log is in the context.
pub fn run<R: Rid>(cx: &Rc<Cx>, cat: &Rc<Cat<R>>, types: &R, ty: u32, input: &[u8]) {
    let (m, k) = cx.start();
    cx.emit(json!({"op": "start", "ty": ty, "m": m.label(), "k": k}));
    let mut cursor = input;
    let r: SRes<'_, '_, R> = {
        let c = &mut cursor;
        with_mode!(cx, cat, m, k, res_map, |v| decode_with_visitor(c, R::id(ty), types, v))
    };
    let (rr, n, cls) = res_json(Some(&r));
    let tail = cursor.len() <= input.len()
        && cursor.as_ptr() as usize + cursor.len() == input.as_ptr() as usize + input.len();
    cx.emit(json!({"op": "done", "r": rr, "n": n, "cls": cls, "pos": input.len() as i64 - cursor.len() as i64, "tail": tail}));
    // stored items can be used for as long as the input is there
    let mut shelf = r.unwrap_or_default();
    let sv = Sv { cx: cx.clone(), cat: cat.clone(), m: Mode::Norm, k: 0, tag: 0 };
    let mut more = match &*cx.script.borrow() {
        Script::Random(_, p) => p.after,
        Script::Fixed(_) => usize::MAX,
    };
    let typed = &cx.typed;
    while !shelf.is_empty() && more > 0 {
        more -= 1;
        match cx.expected() {
            Some(ev) => {
                let ev = ev.unwrap_or(Value::Null);
                let num = |k: &str| ev[k].as_u64().unwrap_or(0) as usize;
                let i = num("i").wrapping_sub(1);
                if i >= shelf.len() {
                    break;
                }
                match ev["op"].as_str().unwrap_or("") {
                    "later" => sv.later(&mut shelf, i, Mode::of(ev["m"].as_str().unwrap_or("")), num("k")),
                    "latert" if cat.ops.contains_key(&num("g")) => sv.later_t(&shelf, i, num("g"), (num("g") % 2) as u32),
                    _ => break,
                }
            }
            None => {
                let n = shelf.len();
                let (i, m, k, g, via) = cx.random(|r, p| {
                    let (m, k) = pick_mode(r, p, 0);
                    let g = if typed.is_empty() || r.pct(60) { None } else { Some(*r.pick(typed)) };
                    (r.below(n), m, k, g, r.below(2) as u32)
                });
                match g {
                    Some(g) => sv.later_t(&shelf, i, g, via),
                    None => sv.later(&mut shelf, i, m, k),
                }
            }
        }
    }
    cx.emit(json!({"op": "end"}));
    let _ = name;
}
