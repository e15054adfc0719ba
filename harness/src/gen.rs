//! Types and values: random ones, and ones which suit a given target.
use crate::desc::{Style, Table, D};
use crate::names::nid;
use crate::reg::*;
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Knobs {
    /// chance in 100 for another layer of one-field wrapping
    pub wrap: usize,
    /// chance in 100 to describe something as compact where that is possible
    pub compact: usize,
    /// chance in 100 to describe as compact something which cannot be
    pub odd_compact: usize,
    /// chance in 100 that a composite gets fields which the target does not have
    pub extra: usize,
    /// chance in 100 to take fields by position where both ways are possible
    pub positional: usize,
    /// chance in 100, per node, to build something unsuitable
    pub wrong: usize,
    /// chance in 100 that a number is the same width as the target's
    pub same: usize,
    /// chance in 100 for a longer list
    pub long: usize,
    /// chance in 100 for (very) many fields, or hundreds of items too many
    pub many: usize,
    /// chance in 100 for a text (of other than plain letters) which is none
    pub broken_text: usize,
    /// total size in bytes at which we begin to be brief
    pub size: usize,
    /// depth of random types
    pub depth: usize,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs { wrap: 15, compact: 20, odd_compact: 2, extra: 30, positional: 40, wrong: 0, same: 30, long: 8, many: 1, broken_text: 4, size: 400, depth: 3 }
    }
}

/// What a value of some definition should be like for the target to take it.
#[derive(Clone, Debug)]
enum Hint {
    /// a number the target can represent
    Fit(P, bool),
    /// as many items
    Len(usize),
    /// one of these variants (positions in the definition)
    Of(Vec<usize>),
    /// seconds, nanoseconds
    Nanos,
    Secs,
}

pub struct Gen<'a> {
    pub r: Rng,
    pub reg: Reg,
    pub table: &'a Table,
    pub k: Knobs,
    hints: HashMap<u32, Hint>,
    open: Vec<(usize, u32)>,
    heights: Vec<usize>,
    /// unsuitable things built so far
    pub faults: usize,
    /// break the hint at this visit of a hinted definition
    pub break_at: Option<usize>,
    visits: usize,
    /// lists of these lengths, if set
    pub lens: Option<Vec<usize>>,
    /// lists of zero-width items can be as long as anyone likes
    pub endless: bool,
    /// numbers beyond what the target takes are fine
    pub any_num: bool,
}

/// of items without bytes there can be this many
pub const ENDLESS: &[u64] = &[
    0, 1, 2, 3, 70, 1 << 14, (1 << 16) + 3, 1 << 30, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 5, (1 << 40) + 2,
    1 << 63, u64::MAX,
];
/// numbers of fields
pub const WIDE: [usize; 12] = [15, 16, 17, 32, 33, 128, 250, 254, 255, 256, 257, 300];
pub const LENS: [usize; 14] = [15, 16, 17, 31, 63, 64, 65, 70, 100, 127, 128, 255, 256, 300];

impl<'a> Gen<'a> {
    pub fn new(r: Rng, table: &'a Table, k: Knobs) -> Gen<'a> {
        Gen {
            r,
            reg: Reg::default(),
            table,
            k,
            hints: HashMap::new(),
            open: vec![],
            heights: vec![],
            faults: 0,
            break_at: None,
            visits: 0,
            lens: None,
            endless: false,
            any_num: false,
        }
    }

    // -----------------------------------------------------------------------------------------
    // types

    pub fn fresh(&mut self, d: Def) -> u32 {
        self.reg.0.push(d);
        self.reg.0.len() as u32 - 1
    }
    pub fn field_name(&mut self) -> u32 {
        const N: [&str; 24] = [
            "a", "b", "c", "d", "e", "x1", "x10", "x2", "inner", "value", "extra", "extra2", "A", "zz", "größe", "字段",
            "with space", "", "0", "1", "_", "a.b", "[0]", "type",
        ];
        if self.r.pct(20) {
            return nid(self.r.pick(&crate::names::ODD));
        }
        nid(self.r.pick(&N))
    }
    pub fn variant_name(&mut self) -> u32 {
        const N: [&str; 18] = [
            "Some", "None", "Ok", "Err", "Unit", "Tuple", "Named", "One", "Two", "Left", "Other", "some", "none", "V0",
            "V1", "V7", "Варіант", "Nested",
        ];
        nid(self.r.pick(&N))
    }
    /// a name which is nearly one of these
    fn nearly(&mut self, of: &[u32]) -> Option<u32> {
        let of: Vec<u32> = of.iter().copied().filter(|n| *n != 0).collect();
        if of.is_empty() {
            return None;
        }
        let ns = crate::names::like(*self.r.pick(&of));
        if ns.is_empty() {
            None
        } else {
            Some(*self.r.pick(ns))
        }
    }
    fn path(&mut self) -> Vec<u32> {
        const N: [&str; 9] = ["my_crate", "module", "sub", "deeper", "deepest", "types", "Foo", "Bar", "Wrapper"];
        let n = *self.r.pick(&[0, 0, 1, 2, 3, 3, 6, 9]);
        (0..n).map(|_| nid(self.r.pick(&N))).collect()
    }
    pub fn comp(&mut self, fs: Fs) -> u32 {
        let path = self.path();
        self.fresh(Def::Comp { path, fs })
    }
    /// names for n fields: all, none or some of them, all different
    pub fn names(&mut self, n: usize) -> Vec<u32> {
        match self.r.below(if n > 20 { 1 } else { 4 }) {
            0 => vec![0; n],
            how => {
                let mut out = vec![];
                for i in 0..n {
                    if how == 1 && self.r.pct(40) {
                        out.push(0);
                        continue;
                    }
                    let mut name = self.field_name();
                    let mut tries = 0;
                    while out.contains(&name) {
                        name = if tries < 20 { self.field_name() } else { 0 };
                        if name == 0 {
                            break;
                        }
                        tries += 1;
                    }
                    let _ = i;
                    out.push(name);
                }
                out
            }
        }
    }

    /// A random type of at most the given depth, compact encodable if so wanted.
    pub fn random_ty(&mut self, depth: usize, compact: bool) -> u32 {
        if compact && !self.r.pct(self.k.odd_compact) {
            return match self.r.below(if depth == 0 { 1 } else { 3 }) {
                0 => {
                    let p = *self.r.pick(&UINTS);
                    self.fresh(Def::Prim(p))
                }
                1 => {
                    let t = self.random_ty(depth - 1, true);
                    let n = self.names(1);
                    self.comp(vec![(n[0], t)])
                }
                _ => {
                    let t = self.random_ty(depth - 1, true);
                    self.fresh(Def::Tup(vec![t]))
                }
            };
        }
        let roll = self.r.below(100);
        if depth == 0 || roll < 30 {
            return match self.r.below(22) {
                0 | 1 => {
                    let (w, m) = (*self.r.pick(&[1, 2, 4, 8]), self.r.pct(50));
                    self.fresh(Def::Bits(w, m))
                }
                2 | 3 => self.fresh(Def::Prim(P::Str)),
                4 => self.fresh(Def::Tup(vec![])),
                5 => self.comp(vec![]),
                _ => {
                    let p = *self.r.pick(&ALL_PRIMS);
                    self.fresh(Def::Prim(p))
                }
            };
        }
        match roll {
            30..=41 => {
                let t = self.random_ty(depth - 1, true);
                self.fresh(Def::Compact(t))
            }
            42..=52 => {
                let t = self.random_ty(depth - 1, false);
                self.fresh(Def::Seq(t))
            }
            53..=60 => {
                let t = self.random_ty(depth - 1, false);
                self.arr_of(t)
            }
            61..=69 if self.r.pct(self.k.many) => {
                let n = *self.r.pick(&WIDE);
                let fs = self.many_fields(n, false);
                self.fresh(Def::Tup(fs.into_iter().map(|f| f.1).collect()))
            }
            61..=69 => {
                let n = *self.r.pick(&[0, 1, 1, 2, 2, 3, 5]);
                let ts = (0..n).map(|_| self.random_ty(depth - 1, false)).collect();
                self.fresh(Def::Tup(ts))
            }
            70..=84 => {
                let fs = self.random_fields(depth);
                self.comp(fs)
            }
            _ => self.random_var(depth),
        }
    }
    pub fn random_fields(&mut self, depth: usize) -> Fs {
        if self.r.pct(self.k.many) {
            let n = *self.r.pick(&WIDE);
            return self.many_fields(n, false);
        }
        let n = *self.r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 6, 17, 21]);
        let d = if n > 6 { 0 } else { depth.saturating_sub(1) };
        let names = self.names(n);
        names.into_iter().map(|nm| (nm, self.random_ty(d, false))).collect()
    }
    /// A tuple, composite, variant or array with (very) many fields or items.
    pub fn wide(&mut self) -> u32 {
        let n = *self.r.pick(&WIDE);
        let fs = self.many_fields(n, false);
        let t = match self.r.below(10) {
            8 | 9 => self.many_variants(n.min(256)),
            0..=2 => self.fresh(Def::Tup(fs.into_iter().map(|f| f.1).collect())),
            3..=5 => self.comp(fs),
            6 => {
                let (n, i) = (self.variant_name(), self.r.below(256) as u8);
                let path = self.path();
                self.fresh(Def::Var { path, vs: vec![Var { n, i, fs }] })
            }
            _ => {
                let t = self.random_ty(0, false);
                self.fresh(Def::Arr(t, n as u32))
            }
        };
        match self.r.below(4) {
            0 => {
                let u = self.random_ty(0, false);
                self.fresh(Def::Tup(vec![u, t, u]))
            }
            1 => self.comp(vec![(0, t)]),
            _ => t,
        }
    }
    /// Many small fields, with names of their own if they have any.
    fn many_fields(&mut self, n: usize, named: bool) -> Fs {
        let ts = [
            self.fresh(Def::Prim(P::U8)),
            self.fresh(Def::Prim(P::Bool)),
            self.fresh(Def::Tup(vec![])),
            self.random_ty(0, false),
        ];
        let how = if named { 2 } else { self.r.below(3) };
        let from = self.r.below(crate::names::MANY - n);
        (0..n)
            .map(|i| {
                let name = if how == 0 || how == 1 && self.r.pct(40) { 0 } else { nid(&format!("n{:03}", from + i)) };
                (name, ts[if self.r.pct(5) { self.r.below(4) } else { 0 }])
            })
            .collect()
    }
    fn indices(&mut self, n: usize) -> Vec<u8> {
        let mut is: Vec<u8> = match self.r.below(4) {
            0 => (0..n).map(|i| i as u8).collect(),
            1 => (0..n).map(|i| 255 - i as u8).collect(),
            2 => (0..n).map(|i| (i * 3 + 1) as u8).collect(),
            _ => {
                let mut out: Vec<u8> = vec![];
                while out.len() < n {
                    let i = self.r.below(256) as u8;
                    if !out.contains(&i) {
                        out.push(i);
                    }
                }
                out
            }
        };
        if self.r.pct(50) {
            self.r.shuffle(&mut is);
        }
        is
    }
    /// Many variants, most of them with nothing in them.
    fn many_variants(&mut self, n: usize) -> u32 {
        let is = self.indices(n);
        let u = self.fresh(Def::Prim(P::U8));
        let fs = self.random_fields(1);
        let from = self.r.below(crate::names::MANY - n);
        let mut vs: Vec<Var> = is
            .into_iter()
            .enumerate()
            .map(|(k, i)| {
                let fs = match self.r.below(20) {
                    0..=2 => vec![(0, u)],
                    3 => fs.clone(),
                    _ => vec![],
                };
                Var { n: nid(&format!("n{:03}", from + k)), i, fs }
            })
            .collect();
        if self.r.pct(50) {
            self.r.shuffle(&mut vs);
        }
        let path = self.path();
        self.fresh(Def::Var { path, vs })
    }
    pub fn random_var(&mut self, depth: usize) -> u32 {
        if self.r.pct(self.k.many) {
            let n = *self.r.pick(&[17, 64, 128, 200, 255, 256, 256]);
            return self.many_variants(n);
        }
        let n = *self.r.pick(&[1, 1, 2, 2, 3, 5]);
        let is = self.indices(n);
        let mut names: Vec<u32> = vec![];
        while names.len() < n {
            let nm = self.variant_name();
            if !names.contains(&nm) {
                names.push(nm);
            }
        }
        let vs = is
            .into_iter()
            .zip(names)
            .map(|(i, n)| {
                let fs = if self.r.pct(30) { vec![] } else { self.random_fields(depth.min(2)) };
                Var { n, i, fs }
            })
            .collect();
        let path = self.path();
        self.fresh(Def::Var { path, vs })
    }
    pub fn list_len(&mut self) -> usize {
        if let Some(l) = &self.lens {
            return *self.r.pick(l);
        }
        if self.r.pct(self.k.long) {
            *self.r.pick(&LENS)
        } else {
            *self.r.pick(&[0, 1, 1, 2, 2, 3, 3, 5])
        }
    }
    /// arrays which are not too large altogether
    fn arr_of(&mut self, it: u32) -> u32 {
        let n = self.list_len();
        let small = matches!(self.reg.0.get(it as usize), Some(Def::Prim(_)));
        let n = if n > 5 && !small { n % 6 } else { n };
        self.fresh(Def::Arr(it, n as u32))
    }
    fn wrong(&mut self) -> bool {
        let w = self.r.pct(self.k.wrong);
        if w {
            self.faults += 1;
        }
        w
    }
    /// Wrap a type in one-field composites and tuples.
    pub fn wrapped(&mut self, mut t: u32) -> u32 {
        let mut n = 0;
        while n < 5 && self.r.pct(if n == 0 { self.k.wrap } else { self.k.wrap.max(40) }) {
            if self.k.wrap == 0 {
                break;
            }
            t = self.wrap_once(t);
            n += 1;
        }
        t
    }
    pub fn wrap_once(&mut self, t: u32) -> u32 {
        match self.r.below(3) {
            0 => self.fresh(Def::Tup(vec![t])),
            1 => self.comp(vec![(0, t)]),
            _ => {
                let n = self.field_name();
                self.comp(vec![(n, t)])
            }
        }
    }
    fn can_compact(&self, g: usize) -> bool {
        match &self.table.ds[g] {
            D::Num { .. } | D::Any => true,
            D::Wrap(t) => self.can_compact(*t),
            D::Tup(ts) => ts.len() == 1 && self.can_compact(ts[0]),
            D::Struct { fs, .. } => {
                let used: Vec<_> = fs.iter().filter(|f| !f.skip).collect();
                used.len() == 1 && self.can_compact(used[0].t)
            }
            _ => false,
        }
    }

    /// A type whose values the target is likely to take.
    pub fn ty_for(&mut self, g: usize, c: bool) -> u32 {
        if let Some(i) = self.open.iter().position(|(o, _)| *o == g) {
            if self.r.pct(80) || self.open.len() > 6 {
                return self.open[i].1;
            }
        }
        let odd = !c && self.r.pct(self.k.odd_compact / 4);
        if odd || !c && self.can_compact(g) && self.r.pct(self.k.compact) {
            let t = self.ty_for(g, true);
            return self.fresh(Def::Compact(t));
        }
        if !c && self.wrong() {
            if self.r.pct(55) || self.open.len() > 4 {
                return self.random_ty(1, false);
            }
            // the right thing, in something which is not seen through
            let t = self.plain_for(g, false);
            return match self.r.below(8) {
                0 | 1 => self.fresh(Def::Arr(t, 1)),
                2 => self.fresh(Def::Seq(t)),
                k @ 3..=6 => {
                    // (beside something with or without a size)
                    let u = match self.r.below(3) {
                        0 => self.fresh(Def::Tup(vec![])),
                        1 => self.fresh(Def::Prim(P::U8)),
                        _ => t,
                    };
                    let ts = if self.r.pct(50) { vec![t, u] } else { vec![u, t] };
                    match k {
                        3 => self.fresh(Def::Tup(ts)),
                        4 => self.comp(ts.into_iter().map(|t| (0, t)).collect()),
                        _ => {
                            let names = [if k == 5 { 0 } else { nid("x1") }, nid("x2")];
                            self.comp(ts.into_iter().zip(names).map(|(t, n)| (n, t)).collect())
                        }
                    }
                }
                _ => {
                    let (n, i, path) = (self.variant_name(), self.r.below(256) as u8, self.path());
                    self.fresh(Def::Var { path, vs: vec![Var { n, i, fs: vec![(0, t)] }] })
                }
            };
        }
        let sees_through = matches!(
            self.table.ds[g],
            D::Num { .. } | D::Bool | D::Char | D::Str | D::Bits | D::List(_) | D::Set(_) | D::Heap(_) | D::Arr(..)
                | D::Hash(..) | D::Opt(_) | D::Res(..) | D::Enum { .. }
        );
        let t = self.plain_for(g, c);
        if sees_through {
            self.wrapped(t)
        } else {
            t
        }
    }
    fn plain_for(&mut self, g: usize, c: bool) -> u32 {
        match self.table.ds[g].clone() {
            D::Pending => unreachable!(),
            D::Num { p, nz } => {
                let q = if c {
                    *self.r.pick(&UINTS)
                } else if self.r.pct(self.k.same) {
                    p
                } else {
                    *self.r.pick(&INTS)
                };
                let t = self.fresh(Def::Prim(q));
                self.hints.insert(t, Hint::Fit(p, nz));
                t
            }
            D::Bool => self.fresh(Def::Prim(P::Bool)),
            D::Char => self.fresh(Def::Prim(P::Char)),
            D::Str => self.fresh(Def::Prim(P::Str)),
            D::Bits => {
                let (w, m) = (*self.r.pick(&[1, 2, 4, 8]), self.r.pct(50));
                self.fresh(Def::Bits(w, m))
            }
            D::Phantom => {
                if self.r.pct(50) {
                    self.comp(vec![])
                } else {
                    self.fresh(Def::Tup(vec![]))
                }
            }
            D::Any => {
                let d = self.k.depth.min(2);
                self.random_ty(d, c)
            }
            D::Wrap(t) | D::Range(t) => self.ty_for(t, c),
            D::Dur(t) => {
                let t = self.ty_for(t, c);
                if let Some(is) = self.field_ids(t) {
                    if is.len() == 2 {
                        self.hints.insert(is[0], Hint::Secs);
                        self.hints.insert(is[1], Hint::Nanos);
                    }
                }
                t
            }
            D::List(t) | D::Set(t) | D::Heap(t) => {
                let it = self.ty_for(t, false);
                if self.r.pct(50) {
                    self.fresh(Def::Seq(it))
                } else {
                    self.arr_of(it)
                }
            }
            D::Arr(t, n) | D::Hash(t, n) => {
                let it = self.ty_for(t, false);
                let n = if self.wrong() { self.near(n as usize) } else { n as usize };
                if self.r.pct(50) {
                    let s = self.fresh(Def::Seq(it));
                    self.hints.insert(s, Hint::Len(n));
                    s
                } else {
                    self.fresh(Def::Arr(it, n as u32))
                }
            }
            D::Map(t) if self.r.pct(self.k.many) => {
                let u = self.ty_for(t, false);
                let n = *self.r.pick(&WIDE);
                let fs = self.many_fields(n, false);
                let fs = fs.into_iter().map(|(nm, v)| (nm, if nm == 0 { v } else { u })).collect();
                self.comp(fs)
            }
            D::Map(t) => {
                let n = *self.r.pick(&[0, 1, 2, 3, 4, 6, 12]);
                let names = match self.r.below(3) {
                    0 => self.names(n),
                    how => {
                        let mut ns: Vec<u32> = vec![];
                        while ns.len() < n {
                            let nm = self.field_name();
                            if how == 1 && self.r.pct(25) {
                                ns.push(0)
                            } else if !ns.contains(&nm) {
                                ns.push(nm)
                            }
                        }
                        ns
                    }
                };
                let fs = names
                    .into_iter()
                    .map(|nm| {
                        // unnamed fields need not suit the target
                        (nm, if nm == 0 { self.random_ty(1, false) } else { self.ty_for(t, false) })
                    })
                    .collect();
                self.comp(fs)
            }
            D::Opt(t) => self.variants(vec![("Some", Some(t)), ("None", None)]),
            D::Res(t, e) => self.variants(vec![("Ok", Some(t)), ("Err", Some(e))]),
            D::Tup(ts) => {
                if ts.len() == 1 && self.r.pct(50) {
                    let t = self.ty_for(ts[0], c);
                    if !matches!(self.reg.0[t as usize], Def::Comp { .. } | Def::Tup(_)) {
                        return t;
                    }
                    return self.positional(vec![t], c);
                }
                let fs: Vec<u32> = ts.iter().map(|t| self.ty_for(*t, c)).collect();
                self.positional(fs, c)
            }
            D::Struct { style, fs } => {
                let slot = self.fresh(Def::Err);
                self.open.push((g, slot));
                let d = self.fields_for(style, &fs, c, true);
                self.open.pop();
                self.reg.0[slot as usize] = d;
                slot
            }
            D::Enum { vs } => {
                let slot = self.fresh(Def::Err);
                self.open.push((g, slot));
                // some of the variants, and perhaps some which the target does not know
                let mut out: Vec<(u32, Fs, bool)> = vec![];
                for v in &vs {
                    if vs.len() > 1 && self.r.pct(15) {
                        continue;
                    }
                    let fs = match v.style {
                        Style::Unit => {
                            if self.r.pct(10) {
                                self.random_fields(1)
                            } else {
                                vec![]
                            }
                        }
                        _ => match self.fields_for(v.style, &v.fs, false, false) {
                            Def::Comp { fs, .. } => fs,
                            _ => unreachable!(),
                        },
                    };
                    out.push((v.n, fs, true));
                }
                let ns: Vec<u32> = vs.iter().map(|v| v.n).collect();
                for _ in 0..self.r.below(4) {
                    let near = if self.r.pct(60) { self.nearly(&ns) } else { None };
                    let n = near.unwrap_or_else(|| self.variant_name());
                    if !ns.contains(&n) && !out.iter().any(|v| v.0 == n) {
                        // what would do for the variant with nearly this name
                        let like: Vec<Fs> = out.iter().filter(|v| crate::names::like(v.0).contains(&n)).map(|v| v.1.clone()).collect();
                        let fs = if like.is_empty() || self.r.pct(30) { self.random_fields(1) } else { self.r.pick(&like).clone() };
                        out.push((n, fs, near.is_some() && self.r.pct(30)));
                    }
                }
                self.open.pop();
                self.set_variants(slot, out);
                slot
            }
        }
    }
    /// the ids of the fields of a composite or tuple
    fn field_ids(&self, t: u32) -> Option<Vec<u32>> {
        match &self.reg.0[t as usize] {
            Def::Tup(ts) => Some(ts.clone()),
            Def::Comp { fs, .. } => Some(fs.iter().map(|f| f.1).collect()),
            _ => None,
        }
    }
    fn near(&mut self, n: usize) -> usize {
        if self.r.pct(self.k.many * 4) {
            return n + 256;
        }
        match self.r.below(4) {
            0 => n + 1,
            1 => n.saturating_sub(1),
            2 => 0,
            _ => n + self.r.range(1, 40),
        }
    }
    fn set_variants(&mut self, slot: u32, mut out: Vec<(u32, Fs, bool)>) {
        if out.is_empty() {
            out.push((nid("Other"), vec![], false));
        }
        if self.r.pct(self.k.many) {
            // as many as there can be
            let more = *self.r.pick(&[120, 201, 256]) - out.len().min(100);
            let from = self.r.below(crate::names::MANY - more);
            out.extend((from..from + more).map(|k| (nid(&format!("n{k:03}")), vec![], false)));
        }
        self.r.shuffle(&mut out);
        let is = self.indices(out.len());
        let good: Vec<usize> = (0..out.len()).filter(|i| out[*i].2).collect();
        let path = self.path();
        let vs = out.into_iter().zip(is).map(|((n, fs, _), i)| Var { n, i, fs }).collect();
        self.reg.0[slot as usize] = Def::Var { path, vs };
        if !good.is_empty() {
            self.hints.insert(slot, Hint::Of(good));
        }
    }
    fn variants(&mut self, known: Vec<(&'static str, Option<usize>)>) -> u32 {
        let slot = self.fresh(Def::Err);
        let mut out = vec![];
        for (n, t) in known {
            if self.r.pct(10) {
                continue;
            }
            let fs = match t {
                Some(t) => {
                    let f = self.ty_for(t, false);
                    let nm = if self.r.pct(30) { self.field_name() } else { 0 };
                    vec![(nm, f)]
                }
                None => vec![],
            };
            let fs = if self.wrong() { self.random_fields(1) } else { fs };
            out.push((nid(n), fs, true));
        }
        let ns: Vec<u32> = out.iter().map(|v| v.0).collect();
        for _ in 0..self.r.below(4) {
            let near = if self.r.pct(60) { self.nearly(&ns) } else { None };
            let n = near.unwrap_or_else(|| self.variant_name());
            if !out.iter().any(|v| v.0 == n) && !["Some", "None", "Ok", "Err"].iter().any(|x| nid(x) == n) {
                let like: Vec<Fs> = out.iter().filter(|v| crate::names::like(v.0).contains(&n)).map(|v| v.1.clone()).collect();
                let fs = if like.is_empty() || self.r.pct(30) { self.random_fields(1) } else { self.r.pick(&like).clone() };
                out.push((n, fs, near.is_some() && self.r.pct(30)));
            }
        }
        self.set_variants(slot, out);
        slot
    }
    /// a tuple or composite with these fields; names do not matter
    fn positional(&mut self, mut ts: Vec<u32>, c: bool) -> u32 {
        if !c && self.wrong() {
            if self.r.pct(self.k.many * 4) {
                // as many, but for hundreds more
                let t = self.fresh(Def::Prim(P::U8));
                ts.extend([t; 256]);
            } else if self.r.pct(50) && !ts.is_empty() {
                let i = self.r.below(ts.len());
                ts.remove(i);
            } else {
                let t = self.random_ty(0, false);
                let i = self.r.below(ts.len() + 1);
                ts.insert(i, t);
            }
        }
        if self.r.pct(50) {
            self.fresh(Def::Tup(ts))
        } else {
            let names = self.names(ts.len());
            let fs = names.into_iter().zip(ts).collect();
            self.comp(fs)
        }
    }
    fn fields_for(&mut self, style: Style, fs: &[crate::desc::Fld], c: bool, tuple_too: bool) -> Def {
        let mut ts: Vec<(u32, u32)> = vec![];
        for f in fs {
            if !f.skip {
                let t = self.ty_for(f.t, c);
                ts.push((f.n, t));
            }
        }
        let by_pos = style != Style::Named || self.r.pct(self.k.positional);
        if by_pos {
            if !c && self.wrong() {
                if self.r.pct(self.k.many * 4) {
                    let t = self.fresh(Def::Prim(P::U8));
                    ts.extend([(0, t); 256]);
                } else if self.r.pct(50) && !ts.is_empty() {
                    let i = self.r.below(ts.len());
                    ts.remove(i);
                } else {
                    let t = self.random_ty(0, false);
                    ts.push((0, t));
                }
            }
            if tuple_too && self.r.pct(40) {
                return Def::Tup(ts.into_iter().map(|f| f.1).collect());
            }
            let n = ts.len();
            let mut names: Vec<u32> = match self.r.below(3) {
                0 => vec![0; n],
                1 => self.names(n),
                _ => {
                    // the right names, at the wrong places
                    let mut ns: Vec<u32> = fs.iter().filter(|f| !f.skip).map(|f| f.n).collect();
                    ns.resize(n, 0);
                    self.r.shuffle(&mut ns);
                    ns
                }
            };
            if style == Style::Named && n > 0 && !names.contains(&0) {
                // one unnamed field is enough
                let i = self.r.below(n);
                names[i] = 0;
            }
            let path = self.path();
            return Def::Comp { path, fs: names.into_iter().zip(ts).map(|(n, f)| (n, f.1)).collect() };
        }
        if !c {
            if self.wrong() && !ts.is_empty() {
                let i = self.r.below(ts.len());
                let near = if self.r.pct(40) { self.nearly(&[ts[i].0]) } else { None };
                match near {
                    // there, but for its name
                    Some(n) if !ts.iter().any(|f| f.0 == n) => ts[i].0 = n,
                    _ => {
                        ts.remove(i);
                    }
                }
            }
            let needed = ts.len();
            let many = self.r.pct(self.k.many);
            if many {
                let n = *self.r.pick(&WIDE);
                let more = self.many_fields(n, true);
                ts.extend(more);
            }
            if self.r.pct(self.k.extra) {
                for _ in 0..self.r.range(1, 3) {
                    // also under the names of skipped fields
                    let skipped: Vec<u32> = fs.iter().filter(|f| f.skip).map(|f| f.n).collect();
                    let all: Vec<u32> = fs.iter().map(|f| f.n).collect();
                    let near = if self.r.pct(50) { self.nearly(&all) } else { None };
                    let n = if !skipped.is_empty() && self.r.pct(60) {
                        *self.r.pick(&skipped)
                    } else {
                        near.unwrap_or_else(|| self.field_name())
                    };
                    let same = ts.iter().find(|f| f.0 != 0 && crate::names::like(f.0).contains(&n)).map(|f| f.1);
                    if n != 0 && !ts.iter().any(|f| f.0 == n) && !fs.iter().any(|f| f.n == n && !f.skip) {
                        let t = match same {
                            Some(t) if self.r.pct(70) => t,
                            _ => self.random_ty(1, false),
                        };
                        ts.push((n, t));
                    }
                }
            }
            if many && self.r.pct(50) {
                // what is needed comes last
                ts.rotate_left(needed);
            } else if self.r.pct(70) {
                self.r.shuffle(&mut ts);
            }
        }
        let path = self.path();
        Def::Comp { path, fs: ts }
    }

    // -----------------------------------------------------------------------------------------
    // values

    /// Least nesting of any value of each type, to know how to end.
    fn compute_heights(&mut self) {
        const INF: usize = 1_000_000;
        let n = self.reg.0.len();
        let mut h = vec![INF; n];
        let get = |h: &Vec<usize>, t: u32| h.get(t as usize).copied().unwrap_or(0);
        loop {
            let mut changed = false;
            for i in 0..n {
                let fsh = |h: &Vec<usize>, fs: &Fs| fs.iter().map(|f| get(h, f.1)).max().unwrap_or(0);
                let new = match &self.reg.0[i] {
                    Def::Prim(_) | Def::Bits(..) | Def::Err => 0,
                    Def::Seq(_) => 0,
                    Def::Compact(t) => get(&h, *t),
                    Def::Arr(t, len) => {
                        if *len == 0 {
                            0
                        } else {
                            get(&h, *t)
                        }
                    }
                    Def::Tup(ts) => ts.iter().map(|t| get(&h, *t)).max().unwrap_or(0),
                    Def::Comp { fs, .. } => fsh(&h, fs),
                    Def::Var { vs, .. } => vs.iter().map(|v| fsh(&h, &v.fs)).min().unwrap_or(0),
                };
                let new = if new >= INF { INF } else { new + 1 };
                if new < h[i] {
                    h[i] = new;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        self.heights = h;
    }
    /// Do values of this type, and of all the others, exist? (Directly recursive types have none,
    /// and where no byte stands between a type and itself, there is no end to decoding it.)
    pub fn finite(&mut self, _t: u32) -> bool {
        self.compute_heights();
        self.heights.iter().all(|h| *h < 1000)
    }
    /// An encoding of some value.
    pub fn value(&mut self, t: u32) -> Vec<u8> {
        self.compute_heights();
        self.visits = 0;
        let mut out = vec![];
        self.enc(t, false, 0, &mut out);
        out
    }
    /// how often a hint was followed, or not, in the value made last
    pub fn visits(&self) -> usize {
        self.visits
    }
    fn broken(&mut self) -> bool {
        self.visits += 1;
        let b = self.break_at == Some(self.visits);
        if b {
            self.faults += 1;
        }
        b
    }

    fn enc(&mut self, t: u32, c: bool, depth: usize, out: &mut Vec<u8>) {
        let Some(def) = self.reg.0.get(t as usize).cloned() else { return };
        let tight = depth > 8 || out.len() > self.k.size;
        match def {
            Def::Err => {}
            Def::Compact(t) => self.enc(t, true, depth, out),
            Def::Prim(p) => self.enc_prim(t, p, c, tight, out),
            Def::Tup(ts) => {
                for t in ts {
                    self.enc(t, c, depth + 1, out)
                }
            }
            Def::Comp { fs, .. } => {
                for (_, t) in fs {
                    self.enc(t, c, depth + 1, out)
                }
            }
            Def::Arr(it, n) => {
                for _ in 0..n {
                    self.enc(it, false, depth + 1, out)
                }
            }
            Def::Seq(it) if self.endless && crate::suites::zero_width(&self.reg, it, 0) => {
                let n = *self.r.pick(ENDLESS);
                compact(n as u128, out);
            }
            Def::Seq(it) => {
                let n = match self.hints.get(&t).cloned() {
                    _ if self.heights.get(it as usize).is_some_and(|h| *h >= 1000) => 0,
                    Some(Hint::Len(n)) if depth < 16 => {
                        if self.broken() {
                            self.near(n)
                        } else {
                            n
                        }
                    }
                    _ if tight => 0,
                    _ => {
                        let n = self.list_len();
                        let small = matches!(self.reg.0.get(it as usize), Some(Def::Prim(p)) if p.width() == 1);
                        if n > 16 && !small && self.lens.is_none() {
                            n % 16 + 1
                        } else {
                            n
                        }
                    }
                };
                compact(n as u128, out);
                for _ in 0..n {
                    self.enc(it, false, depth + 1, out)
                }
            }
            Def::Var { vs, .. } => {
                let mut of: Vec<usize> = (0..vs.len()).collect();
                if let Some(Hint::Of(good)) = self.hints.get(&t).cloned() {
                    if self.broken() {
                        of.retain(|i| !good.contains(i));
                    } else if depth < 12 {
                        of = good;
                    }
                }
                if of.is_empty() {
                    of = (0..vs.len()).collect();
                }
                if of.is_empty() {
                    return;
                }
                let height = |v: &Var| {
                    v.fs.iter().map(|f| self.heights.get(f.1 as usize).copied().unwrap_or(0)).max().unwrap_or(0)
                };
                let i = if tight {
                    *of.iter().min_by_key(|i| height(&vs[**i])).unwrap()
                } else {
                    let i = if of.len() > 8 && self.r.pct(40) {
                        // (at the ends, of the list and of the numbers)
                        let last = of.len() - 1;
                        match self.r.below(6) {
                            0 | 1 => of[0],
                            2 => of[last],
                            3 => of[*self.r.pick(&[1, last - 1])],
                            4 => *of.iter().min_by_key(|i| vs[**i].i).unwrap(),
                            _ => *of.iter().max_by_key(|i| vs[**i].i).unwrap(),
                        }
                    } else {
                        *self.r.pick(&of)
                    };
                    if height(&vs[i]) > 1000 {
                        *of.iter().min_by_key(|i| height(&vs[**i])).unwrap()
                    } else {
                        i
                    }
                };
                out.push(vs[i].i);
                for (_, t) in &vs[i].fs {
                    self.enc(*t, false, depth + 1, out)
                }
            }
            Def::Bits(w, msb) => {
                let n = if tight {
                    self.r.below(9)
                } else if let Some(l) = &self.lens {
                    *self.r.pick(l)
                } else {
                    *self.r.pick(&[0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129])
                };
                self.bits(n, w, msb, out)
            }
        }
    }
    pub fn bits(&mut self, n: usize, w: u8, msb: bool, out: &mut Vec<u8>) {
        compact(n as u128, out);
        let unit = 8 * w as usize;
        let units = n.div_ceil(unit);
        let style = self.r.below(3);
        for u in 0..units {
            let mut x: u64 = match style {
                0 => self.r.next(),
                1 => 1 << self.r.below(unit),
                _ => !0,
            };
            // the bits beyond the end are usually zero, though nothing demands that
            let used = (n - u * unit).min(unit);
            if used < unit && self.r.pct(70) {
                let mask = (1u64 << used) - 1;
                x &= if msb { mask << (unit - used) } else { mask };
            }
            out.extend(&x.to_le_bytes()[..w as usize]);
        }
    }
    pub fn text(&mut self, tight: bool) -> Vec<u8> {
        let n = if tight {
            self.r.below(3)
        } else if let Some(l) = &self.lens {
            *self.r.pick(l)
        } else {
            *self.r.pick(&[0, 1, 2, 3, 5, 8, 20, 63, 64, 65])
        };
        const C: [char; 26] = [
            'a', 'Z', '0', ' ', '\0', '\u{7f}', 'é', 'ß', '字', '€', '\u{10ffff}', '🙂', '\u{feff}', '\u{fffe}', '\u{fffd}',
            '\r', '\n', '\t', '\u{301}', '\u{a0}', '\u{2028}', '\u{200b}', '\u{80}', '\u{7ff}', '\u{800}', '\u{e000}',
        ];
        // as they are, whatever else may be usual to do with them
        const WHOLE: [&str; 22] = [
            "\u{feff}", "\u{feff}a", "a\u{feff}", "\u{feff}\u{feff}b", "\0", "\0\0", "a\0", "\0a", " a", "a ", "\r\n", "a\r\n", "\n",
            "\\", "\"", "'a'", "%20", "&amp;", "e\u{301}", "\u{fffd}", "\u{10ffff}", "\u{d7ff}\u{e000}",
        ];
        if !tight && self.lens.is_none() && self.r.pct(20) {
            return self.r.pick(&WHOLE).as_bytes().to_vec();
        }
        let plain = self.r.pct(50);
        let broken = !plain && self.r.pct(self.k.broken_text);
        let mut s = String::new();
        while s.len() < n {
            s.push(if plain { (b'a' + self.r.below(26) as u8) as char } else { *self.r.pick(&C) });
        }
        let mut s = s.into_bytes();
        if broken {
            self.spoil(&mut s);
        }
        s
    }
    /// Bytes which are not text, though nearly.
    fn spoil(&mut self, s: &mut Vec<u8>) {
        const B: [&[u8]; 17] = [
            &[0x80],
            &[0xbf],
            &[0xc0, 0x80],
            &[0xc1, 0xbf],
            &[0xc3],
            &[0xe0, 0x9f, 0x80],
            &[0xe2, 0x82],
            &[0xe5],
            &[0xed, 0xa0, 0x80],
            &[0xed, 0xbf, 0xbf],
            &[0xf0, 0x8f, 0xbf, 0xbf],
            &[0xf0, 0x9f],
            &[0xf0, 0x9f, 0x99],
            &[0xf4, 0x90, 0x80, 0x80],
            &[0xf5, 0x80, 0x80, 0x80],
            &[0xfe],
            &[0xff],
        ];
        let b = *self.r.pick(&B);
        match self.r.below(4) {
            0 | 1 => s.extend(b),
            2 => {
                // within the last character
                let n = self.r.below(4).min(s.len());
                s.truncate(s.len() - n);
                s.extend(b);
            }
            _ => {
                let at = self.r.below(s.len() + 1);
                s.splice(at..at, b.iter().copied());
            }
        }
    }
    fn enc_prim(&mut self, t: u32, p: P, c: bool, tight: bool, out: &mut Vec<u8>) {
        match p {
            P::Bool => out.push(self.r.below(2) as u8),
            P::Char => {
                const C: [u32; 12] = [0, 65, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x1f642];
                let x = if self.r.pct(70) { *self.r.pick(&C) } else { self.r.below(0xd800) as u32 };
                out.extend(x.to_le_bytes());
            }
            P::Str => {
                let s = self.text(tight);
                compact(s.len() as u128, out);
                out.extend(s);
            }
            P::U256 | P::I256 => {
                let mut bs = [0u8; 32];
                match self.r.below(5) {
                    0 => {}
                    1 => bs = [255; 32],
                    2 => bs[31] = 128,
                    3 => bs[self.r.below(32)] = 1 + self.r.below(255) as u8,
                    _ => bs.iter_mut().for_each(|b| *b = self.r.next() as u8),
                }
                out.extend(bs);
            }
            _ => {
                let x = match self.hints.get(&t).cloned() {
                    Some(Hint::Fit(q, nz)) if !self.any_num => {
                        let beyond = self.broken();
                        let mut x = (false, 1);
                        for _ in 0..60 {
                            let y = self.number(p);
                            if (fits(y, q) && !(nz && y.1 == 0)) != beyond {
                                x = y;
                                break;
                            }
                        }
                        if !fits(x, p) {
                            x = (false, 1)
                        }
                        x
                    }
                    Some(Hint::Secs) => {
                        let m = *self.r.pick(&[0, 1, 59, u64::MAX as u128, u64::MAX as u128 - 4, u64::MAX as u128 - 3, 1 << 40]);
                        if fits((false, m), p) { (false, m) } else { (false, 1) }
                    }
                    Some(Hint::Nanos) => {
                        let m = *self.r.pick(&[0, 1, 999_999_999, 1_000_000_000, 3_999_999_999, 4_000_000_000, u32::MAX as u128]);
                        if fits((false, m), p) { (false, m) } else { (false, 1) }
                    }
                    _ => self.number(p),
                };
                if c {
                    compact(x.1, out)
                } else {
                    plain(x, p, out)
                }
            }
        }
    }
    /// A number which p can represent, as its sign and magnitude; often close to some boundary.
    pub fn number(&mut self, p: P) -> (bool, u128) {
        let w = 8 * p.width() as u32;
        for _ in 0..50 {
            let neg = p.signed() && self.r.pct(45);
            let m: u128 = match self.r.below(10) {
                0 => self.r.below(3) as u128,
                1 => self.r.u128() >> self.r.below(128),
                2 => *self.r.pick(&[63, 64, 16383, 16384, (1 << 30) - 1, 1 << 30, (1 << 14) + 1]),
                3 if w == 128 => u128::MAX - self.r.below(3) as u128,
                _ => {
                    // next to a power of two, mostly of a type's width
                    let b = *self.r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127]);
                    let b = if self.r.pct(15) { self.r.below(127) as u32 } else { b };
                    let d = self.r.below(5) as i128 - 2;
                    ((1u128 << b) as i128).wrapping_add(d) as u128
                }
            };
            let x = (neg && m != 0, m);
            if fits(x, p) {
                return x;
            }
        }
        (false, 1)
    }
}

pub fn fits(x: (bool, u128), p: P) -> bool {
    let w = 8 * p.width() as u32;
    match (p.signed(), x.0) {
        (false, true) => false,
        (false, false) => w == 128 || x.1 < 1u128 << w,
        (true, false) => x.1 < 1u128 << (w - 1),
        (true, true) => x.1 <= 1u128 << (w - 1),
    }
}
pub fn plain(x: (bool, u128), p: P, out: &mut Vec<u8>) {
    let v = if x.0 { x.1.wrapping_neg() } else { x.1 };
    out.extend(&v.to_le_bytes()[..p.width()]);
}
/// The compact encoding (written out here, so as not to depend on anybody else's).
pub fn compact(n: u128, out: &mut Vec<u8>) {
    if n < 64 {
        out.push((n as u8) << 2);
    } else if n < 1 << 14 {
        out.extend((((n as u16) << 2) | 1).to_le_bytes());
    } else if n < 1 << 30 {
        out.extend((((n as u32) << 2) | 2).to_le_bytes());
    } else {
        let bs = n.to_le_bytes();
        let len = (16 - n.leading_zeros() as usize / 8).max(4);
        out.push((((len - 4) as u8) << 2) | 3);
        out.extend(&bs[..len]);
    }
}
