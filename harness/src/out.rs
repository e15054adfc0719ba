//! How outcomes are reported: errors with their class, particulars and path.
use crate::catalog::Outcome;
use crate::desc::*;
use crate::names::{name, nid};
use scale_decode::error::{Context, ErrorKind, Location};
use scale_decode::visitor::{DecodeError, Unexpected};
use scale_decode::Error;
use serde_json::{json, Value};

pub fn unexpected_label(u: &Unexpected) -> &'static str {
    match u {
        Unexpected::Bool => "bool",
        Unexpected::Char => "char",
        Unexpected::U8 => "u8",
        Unexpected::U16 => "u16",
        Unexpected::U32 => "u32",
        Unexpected::U64 => "u64",
        Unexpected::U128 => "u128",
        Unexpected::U256 => "u256",
        Unexpected::I8 => "i8",
        Unexpected::I16 => "i16",
        Unexpected::I32 => "i32",
        Unexpected::I64 => "i64",
        Unexpected::I128 => "i128",
        Unexpected::I256 => "i256",
        Unexpected::Sequence => "sequence",
        Unexpected::Composite => "composite",
        Unexpected::Tuple => "tuple",
        Unexpected::Str => "str",
        Unexpected::Variant => "variant",
        Unexpected::Array => "array",
        Unexpected::Bitsequence => "bitsequence",
    }
}
/// (type ids are told in words)
fn last_number(s: &str) -> Vec<u32> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|n| n.parse().ok()).last().into_iter().collect()
}
/// class and particulars
pub fn decode_error(e: &DecodeError) -> (String, Vec<u32>) {
    let c = |s: &str| (s.to_string(), vec![]);
    match e {
        DecodeError::TypeIdNotFound(id) => ("notfound".into(), last_number(id)),
        DecodeError::TypeResolvingError(_) => c("resolve"),
        DecodeError::CannotDecodeCompactIntoType => c("compact"),
        DecodeError::InvalidStr(_) => c("utf8"),
        DecodeError::InvalidChar(n) => ("char".into(), num_tok(false, *n as u128).1),
        // which of the two is an internal matter
        DecodeError::NotEnoughInput | DecodeError::CodecError(_) => c("input"),
        DecodeError::VariantNotFound(i) => ("novariant".into(), vec![*i as u32]),
        DecodeError::Unexpected(u) => (format!("unexpected:{}", unexpected_label(u)), vec![]),
    }
}
pub fn error_kind(e: &ErrorKind) -> (String, Vec<u32>) {
    match e {
        ErrorKind::VisitorDecodeError(e) => decode_error(e),
        ErrorKind::NumberOutOfRange { value } => match parse_num(value) {
            Some(Tok(sign, mag)) => (format!("range{sign}"), mag),
            None => ("range?".into(), vec![]),
        },
        ErrorKind::CannotFindVariant { got, expected } => {
            ("variant".into(), std::iter::once(nid(got)).chain(expected.iter().map(|n| nid(n))).collect())
        }
        ErrorKind::WrongLength { actual_len, expected_len } => {
            ("len".into(), vec![(*actual_len).min(1 << 30) as u32, (*expected_len).min(1 << 30) as u32])
        }
        ErrorKind::CannotFindField { name } => ("field".into(), vec![nid(name)]),
        ErrorKind::Custom(_) => ("custom".into(), vec![]),
    }
}
/// locations from the innermost outwards, as they appear in messages, and with their kind
fn locations(e: &Error) -> (Vec<String>, Vec<String>) {
    locations_of(e.context().path().locations())
}
fn locations_of<'a>(path: impl Iterator<Item = &'a Location>) -> (Vec<String>, Vec<String>) {
    let mut shown = vec![];
    let mut kinds = vec![];
    for l in path {
        let mut c = Context::new();
        c.push(l.clone());
        let s = c.path().to_string();
        let inner = |a: char, b: char| s.strip_prefix(a).and_then(|s| s.strip_suffix(b)).map(|s| s.to_string());
        let idx = inner('[', ']').and_then(|n| n.parse::<usize>().ok()).filter(|n| *l == Location::idx(*n));
        let var = inner('(', ')').filter(|v| *l == Location::variant(v.clone()));
        kinds.push(match (idx, var) {
            (Some(i), _) => format!("i:{i}"),
            (_, Some(v)) => format!("v:{v}"),
            _ => format!("f:{s}"),
        });
        shown.push(s);
    }
    (shown, kinds)
}

/// Does the message show every location, in order, and what happened?
fn message_ok(e: &Error, shown: &[String]) -> bool {
    let msg = e.to_string();
    let mut at = 0;
    for s in shown {
        match msg[at..].find(s.as_str()) {
            Some(i) => at += i + s.len(),
            None => return false,
        }
    }
    msg[at..].contains(&e.kind().to_string())
}

/// An error made as `ev` says (made: class, particulars and text; steps: what is added to its
/// location, and by which of the ways to do so), and what it then says of itself.
pub fn context(ev: &Value) -> Value {
    let int = |v: &Value| v.as_u64().unwrap_or(0);
    let text = |v: &Value| v.as_str().unwrap_or("").to_string();
    let made = &ev["made"];
    let args: Vec<u64> = made[1].as_array().map(|a| a.iter().map(int).collect()).unwrap_or_default();
    let arg = |i: usize| args.get(i).copied().unwrap_or(0);
    let (cls, txt, by) = (text(&made[0]), text(&made[2]), int(&ev["by"]));
    let number = || {
        let mag = args.iter().rev().fold(0u128, |n, b| n << 8 | *b as u128);
        if cls == "range-" { format!("-{mag}") } else { mag.to_string() }
    };
    let bad = |e: DecodeError| match by % 3 {
        0 => Error::from(e),
        1 => Error::new(ErrorKind::VisitorDecodeError(e)),
        _ => Error::new(ErrorKind::from(e)),
    };
    let mut e = match cls.as_str() {
        "custom" => match by % 3 {
            0 => Error::custom_string(txt.clone()),
            1 => Error::custom_str(txt.clone().leak()),
            _ => Error::custom(std::io::Error::other(txt.clone())),
        },
        "len" => Error::new(ErrorKind::WrongLength { actual_len: arg(0) as usize, expected_len: arg(1) as usize }),
        "field" => Error::new(ErrorKind::CannotFindField { name: name(arg(0) as u32).into() }),
        "variant" => Error::new(ErrorKind::CannotFindVariant {
            got: name(arg(0) as u32).into(),
            expected: args[1..].iter().map(|n| name(*n as u32)).collect(),
        }),
        "range+" | "range-" => Error::new(ErrorKind::NumberOutOfRange { value: number() }),
        "novariant" => bad(DecodeError::VariantNotFound(arg(0) as u8)),
        "char" => bad(DecodeError::InvalidChar(number().parse().unwrap())),
        "compact" => bad(DecodeError::CannotDecodeCompactIntoType),
        "notfound" => bad(DecodeError::TypeIdNotFound(txt.clone())),
        "resolve" => bad(DecodeError::TypeResolvingError(txt.clone())),
        "unexpected:u8" => bad(DecodeError::Unexpected(Unexpected::U8)),
        _ if by % 2 == 0 => bad(DecodeError::NotEnoughInput),
        _ => Error::from(codec::Error::from(txt.clone().leak() as &'static str)),
    };
    let cut = int(&ev["cut"]) as usize;
    let (mut early, mut owned, mut apart) = (e.context().clone(), None, Context::new());
    let no = vec![];
    let steps = ev["steps"].as_array().unwrap_or(&no);
    for (i, s) in steps.iter().enumerate() {
        if i == cut {
            early = e.context().clone();
            owned = Some(e.context().path().into_owned());
        }
        let (t, how) = (text(&s[1]), int(&s[2]));
        let n = t.parse::<usize>().unwrap_or(0);
        let fixed: &'static str = t.clone().leak();
        let loc = match s[0].as_str().unwrap_or("") {
            "i" => Location::idx(n),
            "v" => Location::variant(t.clone()),
            _ => Location::field(fixed),
        };
        apart.push(loc.clone());
        e = match (s[0].as_str().unwrap_or(""), how % 3) {
            ("i", 0) => e.at_idx(n),
            ("v", 0) => e.at_variant(t),
            ("v", 1) => e.at_variant(fixed),
            ("f", 0) => e.at_field(t),
            ("f", 1) => e.at_field(fixed),
            _ => e.at(loc),
        };
    }
    if owned.is_none() {
        early = e.context().clone();
        owned = Some(e.context().path().into_owned());
    }
    let owned = owned.unwrap();
    let (cls, args) = error_kind(e.kind());
    let (shown, path) = locations(&e);
    let told = txt.is_empty() || cls == "input" && by % 2 == 0 || !["custom", "notfound", "resolve"].contains(&cls.as_str()) || e.to_string().contains(&txt);
    json!({"op": "ctx", "made": made, "by": by, "steps": steps, "cut": cut, "ok": false, "e": [cls, args], "path": path,
           "early": locations_of(early.path().locations()).1, "owned": locations_of(owned.locations()).1, "apart": locations_of(apart.path().locations()).1,
           "disp": told && message_ok(&e, &shown)})
}

/// The fields ok, v, e, path and disp of an event.
pub fn outcome(r: &Outcome) -> Value {
    match r {
        Ok(v) => json!({"ok": true, "v": toks_json(v), "e": ["", []], "path": [], "disp": true}),
        Err(e) => {
            let (cls, args) = error_kind(e.kind());
            let (shown, path) = locations(e);
            json!({"ok": false, "v": [], "e": [cls, args], "path": path, "disp": message_ok(e, &shown)})
        }
    }
}
