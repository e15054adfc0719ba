//! The table of names. Names are numbers in the specification: an index (from 1) into this table
//! in byte order; 0 stands for "no name".
use std::collections::HashMap;
use std::sync::OnceLock;

const RAW: &[&str] = &[
    // fields of the targets
    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t",
    "inner", "value", "left", "right", "kids", "name", "data", "other", "skipped", "phantom", "first_field",
    "some_long_field_name_which_goes_on_and_on", "key", "id", "x1", "x10", "x2", "aa", "ab",
    // more fields, only in data
    "extra", "extra2", "A", "B", "zz", "größe", "字段", "with space", "", "0", "1", "_", "a.b", "[0]", "(Some)",
    "r#type", "type",
    // variants
    "Some", "None", "Ok", "Err", "Unit", "Tuple", "Named", "Skippy", "One", "Two", "Three", "Left", "Right", "Leaf",
    "Node", "Both", "Empty", "Other", "some", "none", "Big", "Rec", "V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7",
    "Variante", "Варіант", "Nested",
    // names which are nearly those of others
    "SOME", "NONE", "OK", "ERR", "ok", "err", "unit", "UNIT", "tuple", "named", "one", "ONE", "TWO", "LEFT", "v0", "v7", "V00",
    "V10", "BIG", "big", "empty", "Other2", "Inner", "INNER", "VALUE", "value_", "_value", "First_Field", "firstfield",
    "first_fiel", "AA", "Aa", "aA", "aB", "Ab", "AB", "C", "D", "E", "X1", "x", "x01", " a", "a ", "a\u{301}", "Unit ", "Name",
    "some_long_field_name_which_goes_on_and_off", "r#a", "Some_", "Leaf2", "leaf", "NODE",
    "__a", "_0", "camelCase", "PascalCase", "kebab-case", "-1", "\n", "\0", "self", "true", "00", "a::b", "None_", "\"", "{}", "%s", "$",
    // path segments
    "my_crate", "module", "sub", "deeper", "deepest", "types", "Foo", "Bar", "Wrapper",
];

/// names of fields which are not usual
pub const ODD: [&str; 28] = [
    "__a", "_0", "camelCase", "PascalCase", "kebab-case", "-1", "\n", "\0", "self", "true", "00", "a::b", "None_", "\"", "{}", "%s",
    "$", "_value", "value_", "r#type", "r#a", " a", "a ", "a\u{301}", "Some", "None", "x01", "VALUE",
];

/// n000, n001, ...: for composites with many fields
pub const MANY: usize = 330;

struct Table {
    names: Vec<&'static str>,
    ids: HashMap<&'static str, u32>,
}
fn table() -> &'static Table {
    static T: OnceLock<Table> = OnceLock::new();
    T.get_or_init(|| {
        let mut names = RAW.to_vec();
        names.extend((0..MANY).map(|i| &*format!("n{i:03}").leak()));
        names.sort();
        names.dedup();
        let ids = names.iter().enumerate().map(|(i, n)| (*n, i as u32 + 1)).collect();
        Table { names, ids }
    })
}
pub fn all() -> &'static [&'static str] {
    &table().names
}
/// The number of a name; names not in the table (never generated) get a number no name has.
pub fn nid(s: &str) -> u32 {
    table().ids.get(s).copied().unwrap_or(999_999)
}
pub fn onid(s: Option<&str>) -> u32 {
    s.map(nid).unwrap_or(0)
}
pub fn name(i: u32) -> &'static str {
    table().names[i as usize - 1]
}
pub fn oname(i: u32) -> Option<&'static str> {
    if i == 0 {
        None
    } else {
        Some(name(i))
    }
}

/// Names which are not this one, but nearly.
pub fn like(i: u32) -> &'static [u32] {
    static T: OnceLock<Vec<Vec<u32>>> = OnceLock::new();
    fn bare(s: &str) -> Vec<char> {
        let s = s.trim_start_matches("r#").trim_matches([' ', '_']).replace(['_', '\u{301}'], "");
        s.to_lowercase().chars().collect()
    }
    fn near(a: &str, b: &str) -> bool {
        let (x, y) = (bare(a), bare(b));
        a != b
            && !x.is_empty()
            && !y.is_empty()
            && (x == y
                || (x.starts_with(&y) || y.starts_with(&x)) && x.len().abs_diff(y.len()) == 1
                || x.len() > 8 && y.len() > 8 && x[..8] == y[..8])
    }
    let t = T.get_or_init(|| {
        let ns = all();
        ns.iter().map(|a| (0..ns.len()).filter(|j| near(a, ns[*j])).map(|j| j as u32 + 1).collect()).collect()
    });
    &t[i as usize - 1]
}
