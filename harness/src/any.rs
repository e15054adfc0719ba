//! Visitors written by hand, the way a user of the crate would: one that shows everything it is
//! handed, and one for numbers. Both exist with the crate's error type and with one of their own,
//! which needs `VisitorWithCrateError`.
use crate::desc::*;
use crate::names::{nid, onid};
use scale_decode::visitor::{
    types::*, DecodeAsTypeResult, DecodeError, TypeIdFor, Unexpected, Visitor, VisitorWithCrateError,
};
use scale_decode::{Error, IntoVisitor, TypeResolver};
use std::marker::PhantomData;

/// An error type of our own.
#[derive(Debug)]
pub enum OwnError {
    Decode(DecodeError),
    Crate(Error),
}
impl From<DecodeError> for OwnError {
    fn from(e: DecodeError) -> Self {
        OwnError::Decode(e)
    }
}
impl From<OwnError> for Error {
    fn from(e: OwnError) -> Self {
        match e {
            OwnError::Decode(e) => e.into(),
            OwnError::Crate(e) => e,
        }
    }
}
/// What the visitors below need of an error.
pub trait Err: From<DecodeError> + Into<Error> {
    fn at(self, f: impl FnOnce(Error) -> Error) -> Self;
}
impl Err for Error {
    fn at(self, f: impl FnOnce(Error) -> Error) -> Self {
        f(self)
    }
}
impl Err for OwnError {
    fn at(self, f: impl FnOnce(Error) -> Error) -> Self {
        OwnError::Crate(f(self.into()))
    }
}

/// 256 bit numbers as a sign and a magnitude
pub fn num256(bytes: &[u8; 32], signed: bool) -> Tok {
    let mut bs = bytes.to_vec();
    let neg = signed && bs[31] >= 128;
    if neg {
        let mut carry = true;
        for b in bs.iter_mut() {
            let (x, c) = (!*b).overflowing_add(carry as u8);
            *b = x;
            carry = c;
        }
    }
    while bs.last() == Some(&0) {
        bs.pop();
    }
    bytes_tok(if neg { "-" } else { "+" }, &bs)
}

pub struct AnyV<R, E>(PhantomData<(R, E)>);
impl<R, E> AnyV<R, E> {
    pub fn new() -> Self {
        AnyV(PhantomData)
    }
}

macro_rules! any_nums {
    ($($f:ident $t:ty, $p:literal;)*) => { $(
        fn $f<'s, 'r>(self, v: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            let mut o = vec![Tok($p, vec![])];
            v.toks(&mut o);
            Ok(o)
        }
    )* };
}

impl<R: TypeResolver, E: Err> Visitor for AnyV<R, E> {
    type Value<'s, 'r> = Toks;
    type Error = E;
    type TypeResolver = R;

    any_nums! {
        visit_u8 u8, "u8"; visit_u16 u16, "u16"; visit_u32 u32, "u32"; visit_u64 u64, "u64"; visit_u128 u128, "u128";
        visit_i8 i8, "i8"; visit_i16 i16, "i16"; visit_i32 i32, "i32"; visit_i64 i64, "i64"; visit_i128 i128, "i128";
    }
    fn visit_u256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        Ok(vec![Tok("u256", vec![]), num256(v, false)])
    }
    fn visit_i256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        Ok(vec![Tok("i256", vec![]), num256(v, true)])
    }
    fn visit_bool<'s, 'r>(self, v: bool, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut o = vec![];
        v.toks(&mut o);
        Ok(o)
    }
    fn visit_char<'s, 'r>(self, v: char, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut o = vec![];
        v.toks(&mut o);
        Ok(o)
    }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(vec![bytes_tok("str", v.as_str()?.as_bytes())])
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut bits = vec![];
        for b in v.decode()? {
            bits.push(b.map_err(DecodeError::from)? as u32);
        }
        Ok(vec![Tok("bits", bits)])
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut items = vec![];
        let mut n = 0;
        while let Some(x) = v.decode_item(AnyV::<R, E>::new()) {
            items.extend(x.map_err(|e| e.at(|e| e.at_idx(n)))?);
            n += 1;
        }
        Ok([vec![Tok("sequence", vec![n as u32])], items].concat())
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut items = vec![];
        let mut n = 0;
        while let Some(x) = v.decode_item(AnyV::<R, E>::new()) {
            items.extend(x.map_err(|e| e.at(|e| e.at_idx(n)))?);
            n += 1;
        }
        Ok([vec![Tok("array", vec![n as u32])], items].concat())
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut items = vec![];
        let mut n = 0;
        while let Some(x) = v.decode_item(AnyV::<R, E>::new()) {
            items.extend(x.map_err(|e| e.at(|e| e.at_idx(n)))?);
            n += 1;
        }
        Ok([vec![Tok("tuple", vec![0; n])], items].concat())
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let (names, items) = any_fields::<R, E>(v)?;
        Ok([vec![Tok("composite", names)], items].concat())
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let (name, index) = (v.name(), v.index());
        let (names, items) =
            any_fields::<R, E>(v.fields()).map_err(|e| e.at(|e| e.at_variant(name.to_string())))?;
        Ok([vec![Tok("variant", [vec![nid(name), index as u32], names].concat())], items].concat())
    }
}
fn any_fields<R: TypeResolver, E: Err>(v: &mut Composite<'_, '_, R>) -> Result<(Vec<u32>, Toks), E> {
    let mut names = vec![];
    let mut items = vec![];
    while v.remaining() > 0 {
        let name = v.peek_name();
        let x = v.decode_item(AnyV::<R, E>::new()).expect("there is one more");
        let n = names.len();
        items.extend(x.map_err(|e| {
            e.at(|e| match name {
                Some(name) => e.at_field(name.to_string()),
                None => e.at_idx(n),
            })
        })?);
        names.push(onid(name));
    }
    Ok((names, items))
}

/// Whatever there is, as tokens.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Any(pub Toks);
/// The same, by way of `VisitorWithCrateError`.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct AnyOwn(pub Toks);
/// A number, by way of `VisitorWithCrateError`.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct OwnI64(pub i64);

/// turns the value of a visitor into something else
pub struct Mapped<V, T>(pub V, pub PhantomData<T>);
macro_rules! any_target {
    ($t:ident, $v:ty, $new:expr) => {
        impl<R: TypeResolver> Visitor for Mapped<$v, $t> {
            type Value<'s, 'r> = $t;
            type Error = Error;
            type TypeResolver = R;
            fn unchecked_decode_as_type<'s, 'r>(
                self,
                _: &mut &'s [u8],
                _: TypeIdFor<Self>,
                _: &'r R,
            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>> {
                DecodeAsTypeResult::Skipped(self)
            }
            any_target!(@all $t;
                visit_u8(u8), visit_u16(u16), visit_u32(u32), visit_u64(u64), visit_u128(u128),
                visit_i8(i8), visit_i16(i16), visit_i32(i32), visit_i64(i64), visit_i128(i128),
                visit_bool(bool), visit_char(char), visit_str(&mut Str<'s>), visit_bitsequence(&mut BitSequence<'s>),
                visit_sequence(&mut Sequence<'s, 'r, R>), visit_array(&mut Array<'s, 'r, R>),
                visit_tuple(&mut Tuple<'s, 'r, R>), visit_composite(&mut Composite<'s, 'r, R>),
                visit_variant(&mut Variant<'s, 'r, R>));
            fn visit_u256<'r>(self, v: &[u8; 32], t: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
                self.0.visit_u256(v, t).map($t).map_err(Into::into)
            }
            fn visit_i256<'r>(self, v: &[u8; 32], t: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
                self.0.visit_i256(v, t).map($t).map_err(Into::into)
            }
        }
        impl IntoVisitor for $t {
            type AnyVisitor<R: TypeResolver> = Mapped<$v, $t>;
            fn into_visitor<R: TypeResolver>() -> Self::AnyVisitor<R> {
                Mapped($new, PhantomData)
            }
        }
        impl ToToks for $t {
            fn toks(&self, o: &mut Toks) {
                o.extend(self.0.iter().cloned())
            }
        }
    };
    (@all $t:ident; $($f:ident ($a:ty)),*) => { $(
        fn $f<'s, 'r>(self, v: $a, t: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            self.0.$f(v, t).map($t).map_err(Into::into)
        }
    )* };
}
any_target!(Any, AnyV<R, Error>, AnyV::new());
impl Tgt for Any {
    fn desc(_: &mut Table) -> D {
        D::Any
    }
}

macro_rules! own_any {
    ($($f:ident ($a:ty)),*) => { $(
        fn $f<'s, 'r>(self, v: $a, t: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            AnyV::<R, OwnError>::new().$f(v, t).map(AnyOwn)
        }
    )* };
}
/// `VisitorWithCrateError` hands on values as they are, so this visitor makes the final value.
pub struct OwnAnyV<R>(PhantomData<R>);
impl<R: TypeResolver> Visitor for OwnAnyV<R> {
    type Value<'s, 'r> = AnyOwn;
    type Error = OwnError;
    type TypeResolver = R;
    fn visit_u256<'r>(self, v: &[u8; 32], t: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        AnyV::<R, OwnError>::new().visit_u256(v, t).map(AnyOwn)
    }
    fn visit_i256<'r>(self, v: &[u8; 32], t: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        AnyV::<R, OwnError>::new().visit_i256(v, t).map(AnyOwn)
    }
    own_any!(visit_u8(u8), visit_u16(u16), visit_u32(u32), visit_u64(u64), visit_u128(u128),
        visit_i8(i8), visit_i16(i16), visit_i32(i32), visit_i64(i64), visit_i128(i128),
        visit_bool(bool), visit_char(char), visit_str(&mut Str<'s>), visit_bitsequence(&mut BitSequence<'s>),
        visit_sequence(&mut Sequence<'s, 'r, R>), visit_array(&mut Array<'s, 'r, R>),
        visit_tuple(&mut Tuple<'s, 'r, R>), visit_composite(&mut Composite<'s, 'r, R>),
        visit_variant(&mut Variant<'s, 'r, R>));
}
impl IntoVisitor for AnyOwn {
    type AnyVisitor<R: TypeResolver> = VisitorWithCrateError<OwnAnyV<R>>;
    fn into_visitor<R: TypeResolver>() -> Self::AnyVisitor<R> {
        VisitorWithCrateError(OwnAnyV(PhantomData))
    }
}
impl ToToks for AnyOwn {
    fn toks(&self, o: &mut Toks) {
        o.extend(self.0.iter().cloned())
    }
}
impl Tgt for AnyOwn {
    fn desc(b: &mut Table) -> D {
        D::Wrap(b.of::<Any>())
    }
}

pub struct OwnI64V<R>(PhantomData<R>);
macro_rules! own_nums {
    ($($f:ident $t:ty;)*) => { $(
        fn $f<'s, 'r>(self, v: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            let n: Option<i64> = v.try_into().ok();
            n.map(OwnI64).ok_or_else(|| {
                OwnError::Crate(Error::new(scale_decode::error::ErrorKind::NumberOutOfRange { value: v.to_string() }))
            })
        }
    )* };
}
impl<R: TypeResolver> Visitor for OwnI64V<R> {
    type Value<'s, 'r> = OwnI64;
    type Error = OwnError;
    type TypeResolver = R;
    own_nums! {
        visit_u8 u8; visit_u16 u16; visit_u32 u32; visit_u64 u64; visit_u128 u128;
        visit_i8 i8; visit_i16 i16; visit_i32 i32; visit_i64 i64; visit_i128 i128;
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        if v.remaining() != 1 {
            return self.visit_unexpected(Unexpected::Tuple);
        }
        v.decode_item(self).expect("one item")
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        if v.remaining() != 1 {
            return self.visit_unexpected(Unexpected::Composite);
        }
        v.decode_item(self).expect("one item")
    }
}
impl IntoVisitor for OwnI64 {
    type AnyVisitor<R: TypeResolver> = VisitorWithCrateError<OwnI64V<R>>;
    fn into_visitor<R: TypeResolver>() -> Self::AnyVisitor<R> {
        VisitorWithCrateError(OwnI64V(PhantomData))
    }
}
impl ToToks for OwnI64 {
    fn toks(&self, o: &mut Toks) {
        self.0.toks(o)
    }
}
impl Tgt for OwnI64 {
    fn desc(b: &mut Table) -> D {
        D::Wrap(b.of::<i64>())
    }
}
