//! Type descriptions: our own resolver, and the same description as a scale-info registry.
use crate::names::{name, oname};
use scale_type_resolver::{
    BitsOrderFormat, BitsStoreFormat, Field, Primitive, ResolvedTypeVisitor, TypeResolver, Variant,
};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum P {
    Bool,
    Char,
    Str,
    U8,
    U16,
    U32,
    U64,
    U128,
    U256,
    I8,
    I16,
    I32,
    I64,
    I128,
    I256,
}
pub const ALL_PRIMS: [P; 15] = [
    P::Bool, P::Char, P::Str, P::U8, P::U16, P::U32, P::U64, P::U128, P::U256, P::I8, P::I16, P::I32, P::I64,
    P::I128, P::I256,
];
pub const UINTS: [P; 5] = [P::U8, P::U16, P::U32, P::U64, P::U128];
pub const INTS: [P; 10] = [P::U8, P::U16, P::U32, P::U64, P::U128, P::I8, P::I16, P::I32, P::I64, P::I128];

impl P {
    pub fn label(self) -> &'static str {
        match self {
            P::Bool => "bool",
            P::Char => "char",
            P::Str => "str",
            P::U8 => "u8",
            P::U16 => "u16",
            P::U32 => "u32",
            P::U64 => "u64",
            P::U128 => "u128",
            P::U256 => "u256",
            P::I8 => "i8",
            P::I16 => "i16",
            P::I32 => "i32",
            P::I64 => "i64",
            P::I128 => "i128",
            P::I256 => "i256",
        }
    }
    pub fn from_label(s: &str) -> P {
        *ALL_PRIMS.iter().find(|p| p.label() == s).expect("known primitive")
    }
    pub fn width(self) -> usize {
        match self {
            P::Bool | P::U8 | P::I8 => 1,
            P::U16 | P::I16 => 2,
            P::U32 | P::I32 | P::Char => 4,
            P::U64 | P::I64 => 8,
            P::U128 | P::I128 => 16,
            P::U256 | P::I256 => 32,
            P::Str => 0,
        }
    }
    pub fn is_uint(self) -> bool {
        UINTS.contains(&self)
    }
    pub fn is_int(self) -> bool {
        INTS.contains(&self)
    }
    pub fn signed(self) -> bool {
        matches!(self, P::I8 | P::I16 | P::I32 | P::I64 | P::I128 | P::I256)
    }
    fn resolved(self) -> Primitive {
        match self {
            P::Bool => Primitive::Bool,
            P::Char => Primitive::Char,
            P::Str => Primitive::Str,
            P::U8 => Primitive::U8,
            P::U16 => Primitive::U16,
            P::U32 => Primitive::U32,
            P::U64 => Primitive::U64,
            P::U128 => Primitive::U128,
            P::U256 => Primitive::U256,
            P::I8 => Primitive::I8,
            P::I16 => Primitive::I16,
            P::I32 => Primitive::I32,
            P::I64 => Primitive::I64,
            P::I128 => Primitive::I128,
            P::I256 => Primitive::I256,
        }
    }
    fn portable(self) -> scale_info::TypeDefPrimitive {
        use scale_info::TypeDefPrimitive as D;
        match self {
            P::Bool => D::Bool,
            P::Char => D::Char,
            P::Str => D::Str,
            P::U8 => D::U8,
            P::U16 => D::U16,
            P::U32 => D::U32,
            P::U64 => D::U64,
            P::U128 => D::U128,
            P::U256 => D::U256,
            P::I8 => D::I8,
            P::I16 => D::I16,
            P::I32 => D::I32,
            P::I64 => D::I64,
            P::I128 => D::I128,
            P::I256 => D::I256,
        }
    }
}

/// (name, type id) with name 0 for unnamed fields
pub type Fs = Vec<(u32, u32)>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Var {
    pub n: u32,
    pub i: u8,
    pub fs: Fs,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Def {
    Prim(P),
    Compact(u32),
    Seq(u32),
    Arr(u32, u32),
    Tup(Vec<u32>),
    Comp { path: Vec<u32>, fs: Fs },
    Var { path: Vec<u32>, vs: Vec<Var> },
    /// unit width in bytes, most significant bit first?
    Bits(u8, bool),
    /// the resolver fails
    Err,
}

#[derive(Clone, Debug, Default)]
pub struct Reg(pub Vec<Def>);

#[derive(Debug)]
pub struct RegError;
impl core::fmt::Display for RegError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("this type cannot be resolved")
    }
}

pub fn iter_fs(fs: &Fs) -> impl ExactSizeIterator<Item = Field<'_, u32>> {
    fs.iter().map(|(n, t)| Field::new(*t, oname(*n)))
}

thread_local! {
    /// how many types were asked for
    pub static RESOLVED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Resolvers whose type ids are numbers of some kind.
pub trait Rid: TypeResolver + Clone + 'static {
    fn num(id: &Self::TypeId) -> u32;
    fn id(n: u32) -> Self::TypeId;
}
impl Rid for Reg {
    fn num(id: &u32) -> u32 {
        *id
    }
    fn id(n: u32) -> u32 {
        n
    }
}
impl Rid for scale_info::PortableRegistry {
    fn num(id: &u32) -> u32 {
        *id
    }
    fn id(n: u32) -> u32 {
        n
    }
}
impl Rid for TextReg {
    fn num(id: &TextId) -> u32 {
        id.num()
    }
    fn id(n: u32) -> TextId {
        TextId::of(n)
    }
}

impl TypeResolver for Reg {
    type TypeId = u32;
    type Error = RegError;

    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u32>>(
        &'this self,
        type_id: u32,
        visitor: V,
    ) -> Result<V::Value, RegError> {
        resolve(&self.0, type_id as usize, visitor, |t| t)
    }
}

fn resolve<'this, I: scale_type_resolver::TypeId + 'static, V: ResolvedTypeVisitor<'this, TypeId = I>>(
    defs: &'this [Def],
    type_id: usize,
    visitor: V,
    id: impl Fn(u32) -> I + Copy,
) -> Result<V::Value, RegError> {
    RESOLVED.with(|c| c.set(c.get() + 1));
    let Some(def) = defs.get(type_id) else {
        return Ok(visitor.visit_not_found());
    };
    Ok(match def {
        Def::Err => return Err(RegError),
        Def::Prim(p) => visitor.visit_primitive(p.resolved()),
        Def::Compact(t) => visitor.visit_compact(id(*t)),
        Def::Seq(t) => visitor.visit_sequence(core::iter::empty(), id(*t)),
        Def::Arr(t, n) => visitor.visit_array(id(*t), *n as usize),
        Def::Tup(ts) => visitor.visit_tuple(ts.iter().map(move |t| id(*t))),
        Def::Comp { path, fs } => visitor.visit_composite(
            path.iter().map(|n| name(*n)),
            fs.iter().map(move |(n, t)| Field::new(id(*t), oname(*n))),
        ),
        Def::Var { path, vs } => visitor.visit_variant(
            path.iter().map(|n| name(*n)),
            vs.iter().map(move |v| Variant {
                index: v.i,
                name: name(v.n),
                fields: v.fs.iter().map(move |(n, t)| Field::new(id(*t), oname(*n))),
            }),
        ),
        Def::Bits(w, msb) => visitor.visit_bit_sequence(
            match w {
                1 => BitsStoreFormat::U8,
                2 => BitsStoreFormat::U16,
                4 => BitsStoreFormat::U32,
                _ => BitsStoreFormat::U64,
            },
            if *msb { BitsOrderFormat::Msb0 } else { BitsOrderFormat::Lsb0 },
        ),
    })
}

/// The same types with ids which are strings (so neither small nor `Copy`).
#[derive(Clone, Debug)]
pub struct TextReg(pub Vec<Def>);
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct TextId(pub String);
impl TextId {
    pub fn of(t: u32) -> TextId {
        TextId(format!("type {t}"))
    }
    pub fn num(&self) -> u32 {
        self.0.strip_prefix("type ").and_then(|s| s.parse().ok()).unwrap_or(u32::MAX)
    }
}
impl TypeResolver for TextReg {
    type TypeId = TextId;
    type Error = RegError;

    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = TextId>>(
        &'this self,
        type_id: TextId,
        visitor: V,
    ) -> Result<V::Value, RegError> {
        resolve(&self.0, type_id.num() as usize, visitor, TextId::of)
    }
}

impl Reg {
    pub fn add(&mut self, d: Def) -> u32 {
        // share common definitions, half like scale-info does
        if matches!(d, Def::Prim(_)) {
            if let Some(i) = self.0.iter().position(|x| *x == d) {
                return i as u32;
            }
        }
        self.0.push(d);
        self.0.len() as u32 - 1
    }

    pub fn json(&self) -> Value {
        Value::Array(self.0.iter().map(def_json).collect())
    }

    pub fn from_json(v: &Value) -> Reg {
        Reg(v.as_array().unwrap().iter().map(def_from_json).collect())
    }

    pub fn portable(&self) -> scale_info::PortableRegistry {
        use scale_info::{
            form::PortableForm, interner::UntrackedSymbol, Field, Path, PortableType, Type, TypeDef, TypeDefArray,
            TypeDefBitSequence, TypeDefCompact, TypeDefComposite, TypeDefSequence, TypeDefTuple, TypeDefVariant,
            Variant,
        };
        let n = self.0.len() as u32;
        // ids which are not there must stay so; we append the types which describe bit formats.
        let sym = |t: u32| -> UntrackedSymbol<core::any::TypeId> { (if t < n { t } else { t + 1000 }).into() };
        let path = |p: &[u32]| Path::<PortableForm> { segments: p.iter().map(|s| name(*s).to_string()).collect() };
        let fields = |fs: &Fs| -> Vec<Field<PortableForm>> {
            fs.iter()
                .map(|(nm, t)| Field {
                    name: oname(*nm).map(|s| s.to_string()),
                    ty: sym(*t),
                    type_name: None,
                    docs: vec![],
                })
                .collect()
        };
        let mut types: Vec<PortableType> = Vec::new();
        let mut push = |path: Path<PortableForm>, def: TypeDef<PortableForm>| {
            let id = types.len() as u32;
            types.push(PortableType { id, ty: Type { path, type_params: vec![], type_def: def, docs: vec![] } });
        };
        for d in &self.0 {
            let none = path(&[]);
            match d {
                Def::Prim(p) => push(none, TypeDef::Primitive(p.portable())),
                Def::Compact(t) => push(none, TypeDef::Compact(TypeDefCompact { type_param: sym(*t) })),
                Def::Seq(t) => push(none, TypeDef::Sequence(TypeDefSequence { type_param: sym(*t) })),
                Def::Arr(t, len) => push(none, TypeDef::Array(TypeDefArray { len: *len, type_param: sym(*t) })),
                Def::Tup(ts) => {
                    push(none, TypeDef::Tuple(TypeDefTuple { fields: ts.iter().map(|t| sym(*t)).collect() }))
                }
                Def::Comp { path: p, fs } => {
                    push(path(p), TypeDef::Composite(TypeDefComposite { fields: fields(fs) }))
                }
                Def::Var { path: p, vs } => push(
                    path(p),
                    TypeDef::Variant(TypeDefVariant {
                        variants: vs
                            .iter()
                            .map(|v| Variant {
                                name: name(v.n).to_string(),
                                fields: fields(&v.fs),
                                index: v.i,
                                docs: vec![],
                            })
                            .collect(),
                    }),
                ),
                Def::Bits(w, msb) => {
                    let store = n + match w { 1 => 0, 2 => 1, 4 => 2, _ => 3 };
                    let order = n + 4 + *msb as u32;
                    push(
                        none,
                        TypeDef::BitSequence(TypeDefBitSequence {
                            bit_store_type: store.into(),
                            bit_order_type: order.into(),
                        }),
                    )
                }
                // scale-info cannot resolve bit sequences whose order is unknown
                Def::Err => push(
                    none,
                    TypeDef::BitSequence(TypeDefBitSequence {
                        bit_store_type: n.into(),
                        bit_order_type: (n + 9999).into(),
                    }),
                ),
            }
        }
        for p in [P::U8, P::U16, P::U32, P::U64] {
            push(path(&[]), TypeDef::Primitive(p.portable()));
        }
        for o in ["Lsb0", "Msb0"] {
            push(
                Path { segments: vec!["bitvec".to_string(), "order".to_string(), o.to_string()] },
                TypeDef::Composite(TypeDefComposite { fields: vec![] }),
            );
        }
        scale_info::PortableRegistry { types }
    }
}

fn fs_json(fs: &Fs) -> Value {
    Value::Array(fs.iter().map(|(n, t)| json!([n, t])).collect())
}
fn fs_from(v: &Value) -> Fs {
    v.as_array()
        .unwrap()
        .iter()
        .map(|f| (f[0].as_u64().unwrap() as u32, f[1].as_u64().unwrap() as u32))
        .collect()
}
fn ids_from(v: &Value) -> Vec<u32> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()
}

/// Lengths are clipped, since TLC's integers have 32 bits.
pub const BIG: u64 = 1 << 30;

fn def_json(d: &Def) -> Value {
    match d {
        Def::Prim(p) => json!({"k": "prim", "p": p.label()}),
        Def::Compact(t) => json!({"k": "compact", "t": t}),
        Def::Seq(t) => json!({"k": "seq", "t": t}),
        Def::Arr(t, n) => json!({"k": "arr", "t": t, "n": (*n as u64).min(BIG)}),
        Def::Tup(ts) => json!({"k": "tup", "ts": ts}),
        Def::Comp { path, fs } => json!({"k": "comp", "path": path, "fs": fs_json(fs)}),
        Def::Var { path, vs } => json!({"k": "var", "path": path, "vs":
            vs.iter().map(|v| json!({"n": v.n, "i": v.i, "fs": fs_json(&v.fs)})).collect::<Vec<_>>()}),
        Def::Bits(w, msb) => json!({"k": "bits", "w": w, "msb": msb}),
        Def::Err => json!({"k": "err"}),
    }
}
fn def_from_json(v: &Value) -> Def {
    let t = |k: &str| v[k].as_u64().unwrap() as u32;
    match v["k"].as_str().unwrap() {
        "prim" => Def::Prim(P::from_label(v["p"].as_str().unwrap())),
        "compact" => Def::Compact(t("t")),
        "seq" => Def::Seq(t("t")),
        "arr" => Def::Arr(t("t"), t("n")),
        "tup" => Def::Tup(ids_from(&v["ts"])),
        "comp" => Def::Comp { path: ids_from(&v["path"]), fs: fs_from(&v["fs"]) },
        "var" => Def::Var {
            path: ids_from(&v["path"]),
            vs: v["vs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| Var {
                    n: x["n"].as_u64().unwrap() as u32,
                    i: x["i"].as_u64().unwrap() as u8,
                    fs: fs_from(&x["fs"]),
                })
                .collect(),
        },
        "bits" => Def::Bits(t("w") as u8, v["msb"].as_bool().unwrap()),
        _ => Def::Err,
    }
}
