//! Less common ways to use the derive macro; these are on a feature of their own because a change
//! to the macro can make them fail to compile.
use super::*;
use scale_decode as alt_path;

pub trait Assoc {
    type Out;
}
pub struct Picks16;
impl Assoc for Picks16 {
    type Out = u16;
}

// own bounds, another path to the crate, lifetimes, constants and where clauses
#[derive(DecodeAsType)]
#[decode_as_type(trait_bounds = "T::Out: IntoVisitor", crate_path = "alt_path")]
pub struct Bounded<T: Assoc> {
    a: T::Out,
    b: bool,
}
impl_named!([T: Assoc<Out = u16> + 'static] Bounded<T> { a: u16, b: bool });

#[derive(DecodeAsType)]
#[decode_as_type(trait_bounds = "")]
pub struct NoBounds<T> {
    a: u32,
    #[decode_as_type(skip)]
    #[allow(dead_code)]
    phantom: PhantomData<T>,
}
impl_named!([T: 'static] NoBounds<T> { a: u32, phantom: PhantomData<T> = skip });

#[derive(DecodeAsType)]
pub struct Sized_<const N: usize>([u8; N], u8);
impl_unnamed!([const N: usize] Sized_ [N] (a: [u8; N], b: u8));

#[derive(DecodeAsType)]
pub struct Lives<'a> {
    a: Cow<'a, str>,
    c: u8,
}
impl_named!([] Lives<'static> { a: Cow<'static, str>, c: u8 });

#[derive(DecodeAsType)]
pub enum Where<T, const N: usize>
where
    T: Clone,
{
    Left(T),
    Both { a: T, b: [T; N] },
}
impl_enum!([T: Tgt + Clone, const N: usize] Where [T, N] { tuple Left(a: T), named Both { a: T, b: [T; N] } });

// `skip` next to other attributes
#[derive(DecodeAsType)]
pub struct Attrs {
    /// with a comment
    #[codec(compact)]
    a: u32,
    #[codec(skip, encoded_as = "u8")]
    #[allow(dead_code)]
    b: Seven,
    #[codec(compact)]
    #[decode_as_type(skip)]
    c: Seven,
    #[codec(skip)]
    #[decode_as_type(skip)]
    d: Seven,
    #[codec(encoded_as = "u8")]
    #[codec(skip)]
    e: Opaque,
    f: u8,
}
impl_named!(Attrs { a: u32, b: Seven = skip, c: Seven = skip, d: Seven = skip, e: Opaque = skip, f: u8 });

#[derive(DecodeAsType)]
pub struct AttrsU(#[codec(skip)] #[codec(compact)] Seven, #[codec(compact)] u16, #[doc(hidden)] #[codec(skip)] Opaque, u8);
impl_unnamed!(AttrsU (a: Seven = skip, b: u16, c: Opaque = skip, d: u8));

#[derive(DecodeAsType)]
pub enum AttrsE {
    One {
        #[codec(skip)]
        #[codec(compact)]
        a: Seven,
        b: u8,
    },
    #[allow(dead_code)]
    Two(#[codec(compact)] u16, #[decode_as_type(skip)] #[codec(compact)] Seven),
}
impl_enum!(AttrsE { named One { a: Seven = skip, b: u8 }, tuple Two(a: u16, b: Seven = skip) });

// names which generated code could trip over
#[allow(non_snake_case)]
#[derive(DecodeAsType)]
pub struct Clash {
    value: u8,
    data: u8,
    name: u8,
    id: u8,
    key: u8,
}
impl_named!(Clash { value: u8, data: u8, name: u8, id: u8, key: u8 });

pub fn add<R: TypeResolver + 'static>(c: &mut Cat<R>, b: &mut Table) {
    catf!(c, b, "struct": Bounded<Picks16>, NoBounds<String>, Sized_<3>, Lives<'static>, Clash);
    cat!(c, b, "enum": Where<u8, 2>);
    catf!(c, b, "skip": Attrs, AttrsU, NoBounds<u8>);
    cat!(c, b, "skip": AttrsE, Vec<Attrs>);
}
