//! What is run: cases for each property, written out together with what the code did.
use crate::catalog::*;
use crate::desc::*;
use crate::gen::{compact, fits, plain, Gen, Knobs};
use crate::names::{nid, oname};
use crate::out::*;
use crate::reg::*;
use crate::rng::Rng;
use crate::sess;
use scale_decode::Field;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct World {
    pub table: Table,
    pub cat: Rc<Cat<Reg>>,
    pub others: Others,
}
impl World {
    pub fn new() -> World {
        let mut table = Table::new();
        let cat = Rc::new(full::<Reg>(&mut table));
        World { table, cat, others: Others::new() }
    }
    pub fn json(&self) -> Value {
        json!({"names": crate::names::all(), "targets": self.table.json()})
    }
    /// all targets of some groups
    pub fn groups(&self, gs: &[&str]) -> Vec<usize> {
        let mut out = vec![];
        for g in gs {
            for x in self.cat.group(g) {
                if !out.contains(x) {
                    out.push(*x)
                }
            }
        }
        out
    }
}

/// When the running case of each thread started, for the watchdog; 0 when idle.
static BUSY_SINCE: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
static THREADS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static THREAD: usize = THREADS.fetch_add(1, Ordering::Relaxed) as usize % 16;
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
/// A case is being run.
pub fn busy() {
    THREAD.with(|t| BUSY_SINCE[*t].store(now(), Ordering::Relaxed));
}
pub fn idle() {
    THREAD.with(|t| BUSY_SINCE[*t].store(0, Ordering::Relaxed));
}
/// End the process if a single case takes too long.
pub fn watchdog(limit_ms: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        for b in &BUSY_SINCE {
            let since = b.load(Ordering::Relaxed);
            if since != 0 && now() > since + limit_ms {
                eprintln!("HANG: a case has been running for {limit_ms} ms");
                std::process::exit(3);
            }
        }
    });
}

pub struct Sink {
    out: [BufWriter<File>; 2],
    current: String,
    pub cases: u64,
    pub events: u64,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}
impl Sink {
    pub fn new(path: &str) -> Sink {
        Sink {
            out: [".conv", ".sess"]
                .map(|ext| BufWriter::new(File::create(format!("{path}{ext}")).expect("output file"))),
            current: format!("{path}.current"),
            cases: 0,
            events: 0,
            counts: BTreeMap::new(),
            samples: vec![],
        }
    }
    /// What is about to be run, should we not live to tell.
    pub fn about(&self, case: &Value) {
        std::fs::write(&self.current, case.to_string()).ok();
        busy();
    }
    pub fn count(&mut self, what: &str) {
        *self.counts.entry(what.to_string()).or_default() += 1;
    }
    pub fn write(&mut self, case: Value) {
        idle();
        let evs = case["evs"].as_array().unwrap();
        self.cases += 1;
        self.events += evs.len() as u64;
        for ev in evs {
            let op = ev["op"].as_str().unwrap_or("?").to_string();
            if let Some(ok) = ev.get("ok").and_then(|o| o.as_bool()) {
                let e = ev["e"][0].as_str().unwrap_or("");
                let k = if ok { format!("{op}:ok") } else { format!("{op}:{e}") };
                *self.counts.entry(k).or_default() += 1;
            } else {
                *self.counts.entry(op).or_default() += 1;
            }
        }
        if self.samples.len() < 3 && evs.len() < 12 && self.cases % 7 == 1 {
            self.samples.push(case.clone());
        }
        // sessions are for another module of the specification
        let session = evs.first().is_some_and(|e| e["op"] == "start");
        let out = &mut self.out[session as usize];
        serde_json::to_writer(&mut *out, &case).unwrap();
        out.write_all(b"\n").unwrap();
    }
    pub fn finish(mut self) -> Value {
        idle();
        for o in &mut self.out {
            o.flush().unwrap();
        }
        std::fs::remove_file(&self.current).ok();
        json!({"cases": self.cases, "events": self.events, "counts": self.counts, "samples": self.samples})
    }
}

fn panic_event(p: Box<dyn std::any::Any + Send>) -> Value {
    let msg = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    json!({"op": "panic", "msg": msg})
}

/// What of an outcome is compared besides the value: the kind of error, its path, the cursor after errors
#[derive(Clone, Copy, Debug, Default)]
pub struct Chk {
    pub err: bool,
    pub path: bool,
    pub cursor: bool,
}
pub const VAL: Chk = Chk { err: false, path: false, cursor: false };
pub const ERR: Chk = Chk { err: true, path: false, cursor: false };
pub const FULL: Chk = Chk { err: true, path: true, cursor: false };
pub const CUR: Chk = Chk { err: false, path: false, cursor: true };

fn finish_event(mut ev: Value, op: &str, ty: u32, g: usize, via: u32, chk: Chk, input: &[u8], cursor: &[u8]) -> Value {
    let tail = cursor.len() <= input.len()
        && cursor.as_ptr() as usize + cursor.len() == input.as_ptr() as usize + input.len();
    ev["op"] = json!(op);
    ev["ty"] = json!(ty);
    ev["g"] = json!(g);
    ev["via"] = json!(via);
    ev["p"] = json!(if tail { (input.len() - cursor.len()) as i64 } else { -1 });
    ev["st"] = json!(chk.err);
    ev["pa"] = json!(chk.path);
    ev["cu"] = json!(chk.cursor);
    ev
}

/// Decode into a target.
pub fn conv<R: Rid>(cat: &Cat<R>, types: &R, input: &[u8], ty: u32, g: usize, via: u32, chk: Chk) -> Value {
    let mut cursor = input;
    let r = catch_unwind(AssertUnwindSafe(|| outcome(&cat.ops[&g].dec(&mut cursor, R::id(ty), types, via))));
    match r {
        Ok(ev) => finish_event(ev, "conv", ty, g, via, chk, input, cursor),
        Err(p) => panic_event(p),
    }
}
/// Decode into a target from a list of fields.
pub fn fields<R: Rid>(cat: &Cat<R>, types: &R, input: &[u8], fs: &Fs, g: usize, chk: Chk) -> Value {
    let mut cursor = input;
    let ids: Vec<R::TypeId> = fs.iter().map(|f| R::id(f.1)).collect();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut it = fs.iter().zip(ids).map(|(f, id)| Field::new(id, oname(f.0)));
        outcome(&cat.fields[&g](&mut cursor, &mut it, types))
    }));
    match r {
        Ok(ev) => {
            let mut ev = finish_event(ev, "fields", 0, g, 2, chk, input, cursor);
            ev["fs"] = Value::Array(fs.iter().map(|(n, t)| json!([n, t])).collect());
            ev
        }
        Err(p) => panic_event(p),
    }
}

pub fn case(reg: &Reg, input: &[u8], evs: Vec<Value>) -> Value {
    json!({"reg": reg.json(), "in": input, "evs": evs})
}

/// Things to put after a value.
pub fn tail(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 | 1 => vec![],
        2 => vec![0],
        3 => vec![255; 5],
        4 => (0..r.below(40)).map(|_| r.next() as u8).collect(),
        _ => vec![*r.pick(&[1, 2, 4, 8, 0x80, 3])],
    }
}

pub struct Opts<'a> {
    pub groups: &'a [&'a str],
    pub k: Knobs,
    pub chk: Chk,
    /// values per type
    pub values: usize,
    /// chance in 100 to use another target of the groups than the type was made for
    pub cross: usize,
    /// at most one thing is wrong
    pub single: bool,
    pub any_num: bool,
    pub lens: Option<Vec<usize>>,
    /// also from the list of fields, if it is one
    pub by_fields: bool,
    /// chance in 100 that some type is not there, or cannot be resolved
    pub dangling: usize,
}
impl<'a> Opts<'a> {
    pub fn new(groups: &'a [&'a str]) -> Opts<'a> {
        Opts { groups, k: Knobs::default(), chk: VAL, values: 2, cross: 8, single: false, any_num: false, lens: None, by_fields: false, dangling: 0 }
    }
}

/// Types made for a target, and values which it should take.
pub fn directed(w: &World, rng: &mut Rng, n: usize, o: &Opts, sink: &mut Sink) {
    let gs = w.groups(o.groups);
    let mut done = 0;
    let mut at = rng.below(gs.len());
    while done < n {
        at += 1;
        let g = gs[at % gs.len()];
        let mut gen = Gen::new(rng.fork(), &w.table, o.k.clone());
        gen.any_num = o.any_num;
        gen.lens = o.lens.clone();
        let ty = gen.ty_for(g, false);
        if !gen.finite(ty) {
            continue;
        }
        if o.single && gen.faults > 1 {
            continue;
        }
        for _ in 0..o.values {
            let built = gen.faults;
            gen.break_at = None;
            let mut input = gen.value(ty);
            if o.single && built == 0 && gen.visits() > 0 && gen.r.pct(60) {
                // break one thing
                let v = gen.visits();
                gen.break_at = Some(1 + gen.r.below(v));
                input = gen.value(ty);
                gen.faults = built;
            }
            if input.len() > 3000 {
                continue;
            }
            if gen.r.pct(o.dangling) {
                let i = gen.r.below(gen.reg.0.len());
                gen.reg.0[i] = match gen.r.below(3) {
                    0 => Def::Err,
                    1 => Def::Compact(9999),
                    _ => Def::Seq(*gen.r.pick(&[254, 9999])),
                };
            }
            input.extend(tail(&mut gen.r));
            let mut targets = vec![(g, gen.r.below(2) as u32)];
            if gen.r.pct(o.cross) {
                targets.push((*gen.r.pick(&gs), gen.r.below(2) as u32));
            }
            let plan: Vec<Value> = targets.iter().map(|(g, via)| json!({"op": "conv", "ty": ty, "g": g, "via": via})).collect();
            sink.about(&case(&gen.reg, &input, plan));
            let mut evs: Vec<Value> =
                targets.iter().map(|(g, via)| conv(&w.cat, &gen.reg, &input, ty, *g, *via, o.chk)).collect();
            if o.by_fields {
                let fs: Option<Fs> = match &gen.reg.0[ty as usize] {
                    Def::Comp { fs, .. } => Some(fs.clone()),
                    Def::Tup(ts) => Some(ts.iter().map(|t| (0, *t)).collect()),
                    _ => None,
                };
                if let Some(fs) = fs {
                    for (g, _) in &targets {
                        if w.cat.fields.contains_key(g) {
                            evs.push(fields(&w.cat, &gen.reg, &input, &fs, *g, o.chk));
                        }
                    }
                }
            }
            sink.write(case(&gen.reg, &input, evs));
            done += 1;
        }
    }
}

/// Random types and their values, into some of the given targets.
pub fn random(w: &World, rng: &mut Rng, n: usize, o: &Opts, targets: &[usize], sink: &mut Sink) {
    let mut done = 0;
    while done < n {
        let mut gen = Gen::new(rng.fork(), &w.table, o.k.clone());
        gen.lens = o.lens.clone();
        let ty = gen.random_ty(o.k.depth, false);
        if !gen.finite(ty) {
            continue;
        }
        for _ in 0..o.values {
            let mut input = gen.value(ty);
            if input.len() > 3000 {
                continue;
            }
            input.extend(tail(&mut gen.r));
            let gs: Vec<usize> = targets.iter().copied().filter(|_| targets.len() < 4 || gen.r.pct(300 / targets.len())).collect();
            sink.about(&case(&gen.reg, &input, gs.iter().map(|g| json!({"op": "conv", "ty": ty, "g": g, "via": 0})).collect()));
            let mut evs: Vec<Value> =
                gs.iter().map(|g| conv(&w.cat, &gen.reg, &input, ty, *g, gen.r.below(2) as u32, o.chk)).collect();
            evs.push(crate::mc::skip(&gen.reg, &input, ty));
            sink.write(case(&gen.reg, &input, evs));
            done += 1;
        }
    }
}

/// Values which are cut short, or damaged, into everything and nothing.
pub fn broken(w: &World, rng: &mut Rng, n: usize, depth: usize, sink: &mut Sink) {
    let mut done = 0;
    let any = w.groups(&["any"])[0];
    while done < n {
        let mut k = Knobs { depth, size: 60, long: 4, odd_compact: 5, ..Knobs::default() };
        k.wrap = 5;
        let mut gen = Gen::new(rng.fork(), &w.table, k);
        let ty = gen.random_ty(depth, false);
        if !gen.finite(ty) {
            continue;
        }
        if gen.r.pct(10) {
            // some type is not there, or cannot be resolved
            let i = gen.r.below(gen.reg.0.len());
            let wrong = if gen.r.pct(50) { Def::Err } else { Def::Seq(9999) };
            gen.reg.0[i] = wrong;
        }
        let value = gen.value(ty);
        if value.len() > 400 {
            continue;
        }
        let mut inputs: Vec<Vec<u8>> = vec![];
        // all of the short prefixes, some of the others
        for cut in 0..value.len() {
            if value.len() < 8 || cut + 3 > value.len() || gen.r.pct(300 / value.len()) {
                inputs.push(value[..cut].to_vec());
            }
        }
        for _ in 0..4 {
            let mut bad = value.clone();
            if bad.is_empty() {
                break;
            }
            for _ in 0..gen.r.range(1, 2) {
                let i = if gen.r.pct(50) { gen.r.below(bad.len().min(4)) } else { gen.r.below(bad.len()) };
                match gen.r.below(4) {
                    0 => bad[i] ^= 1 << gen.r.below(8),
                    1 => bad[i] = gen.r.next() as u8,
                    2 => {
                        bad.remove(i);
                        if bad.is_empty() {
                            break;
                        }
                    }
                    _ => bad.insert(i, *gen.r.pick(&[0, 1, 2, 3, 4, 0x80, 0xff])),
                }
            }
            // (decoding makes values even of items without bytes, so no such lengths)
            inputs.push(bad);
        }
        for input in inputs {
            if zero_items(&gen.reg, ty) && claims(&input) {
                continue;
            }
            sink.about(&case(&gen.reg, &input, vec![json!({"op": "conv", "ty": ty, "g": any, "via": 0})]));
            let evs = vec![
                conv(&w.cat, &gen.reg, &input, ty, any, gen.r.below(2) as u32, VAL),
                crate::mc::skip(&gen.reg, &input, ty),
            ];
            sink.write(case(&gen.reg, &input, evs));
            done += 1;
        }
    }
}

/// Do values of this type have no bytes?
pub fn zero_width(reg: &Reg, t: u32, depth: usize) -> bool {
    if depth > 20 {
        return false;
    }
    match reg.0.get(t as usize) {
        None | Some(Def::Prim(_) | Def::Seq(_) | Def::Bits(..) | Def::Var { .. } | Def::Err) => false,
        Some(Def::Compact(t)) => zero_width(reg, *t, depth + 1),
        Some(Def::Arr(t, n)) => *n == 0 || zero_width(reg, *t, depth + 1),
        Some(Def::Tup(ts)) => ts.iter().all(|t| zero_width(reg, *t, depth + 1)),
        Some(Def::Comp { fs, .. }) => fs.iter().all(|f| zero_width(reg, f.1, depth + 1)),
    }
}
/// Are there sequences of items which may have no bytes?
pub fn zero_items(reg: &Reg, _ty: u32) -> bool {
    reg.0.iter().any(|d| match d {
        Def::Seq(t) => zero_width(reg, *t, 0),
        Def::Arr(t, n) => *n > 10_000 && zero_width(reg, *t, 0),
        _ => false,
    })
}
/// Might some part of this be read as a long length?
fn claims(input: &[u8]) -> bool {
    input.iter().enumerate().any(|(i, b)| b & 3 >= 2 && input.len() > i + 3)
}

/// Data which is rejected somewhere, and damaged after that.
pub fn masked(w: &World, rng: &mut Rng, n: usize, o: &Opts, sink: &mut Sink) {
    let gs = w.groups(o.groups);
    let mut done = 0;
    while done < n {
        let mut gen = Gen::new(rng.fork(), &w.table, o.k.clone());
        let g = *gen.r.pick(&gs);
        let inner = gen.ty_for(g, false);
        if !gen.finite(inner) {
            continue;
        }
        let built = gen.faults;
        let mut input = gen.value(inner);
        if built == 0 && gen.visits() > 0 && gen.r.pct(70) {
            let v = gen.visits();
            gen.break_at = Some(1 + gen.r.below(v));
            input = gen.value(inner);
        }
        if input.len() > 600 || input.is_empty() || zero_items(&gen.reg, inner) {
            continue;
        }
        let cut = gen.r.below(input.len());
        match gen.r.below(3) {
            0 => input.truncate(cut),
            1 => {
                // the end is where things are wrong
                let i = cut.max(input.len().saturating_sub(3));
                input[i] = 255
            }
            _ => {}
        }
        let evs = [0, 1].map(|via| json!({"op": "conv", "ty": inner, "g": g, "via": via})).to_vec();
        sink.about(&case(&gen.reg, &input, evs));
        let mut evs: Vec<Value> = (0..2).map(|via| conv(&w.cat, &gen.reg, &input, inner, g, via, o.chk)).collect();
        if let (Def::Comp { fs, .. }, true) = (&gen.reg.0[inner as usize], w.cat.fields.contains_key(&g)) {
            evs.push(fields(&w.cat, &gen.reg, &input, fs, g, o.chk));
        }
        sink.write(case(&gen.reg, &input, evs));
        done += 1;
    }
}

/// Any bytes at all, into all kinds of targets.
pub fn fuzz(w: &World, rng: &mut Rng, n: usize, bulk: usize, sink: &mut Sink) {
    let all = &w.cat.list;
    for i in 0..n + bulk {
        let mut gen = Gen::new(rng.fork(), &w.table, Knobs { wrong: 5, wrap: 10, broken_text: 40, ..Knobs::default() });
        let g = *gen.r.pick(all);
        let ty = if gen.r.pct(50) { gen.ty_for(g, false) } else { gen.random_ty(3, false) };
        if !gen.finite(ty) {
            continue;
        }
        let valid = gen.value(ty);
        // damage the types
        for _ in 0..*gen.r.pick(&[0, 0, 1, 2]) {
            let i = gen.r.below(gen.reg.0.len());
            let new = match gen.r.below(6) {
                0 => Def::Err,
                1 => Def::Seq(4242),
                2 => Def::Compact(gen.r.below(gen.reg.0.len()) as u32),
                3 => Def::Arr(gen.r.below(gen.reg.0.len()) as u32, *gen.r.pick(&[0, 1, 3, 70000, u32::MAX])),
                4 => Def::Tup(vec![77777]),
                _ => Def::Var { path: vec![], vs: vec![] },
            };
            gen.reg.0[i] = new;
        }
        if !acyclic(&gen.reg, ty) {
            continue;
        }
        let mut input: Vec<u8> = match gen.r.below(3) {
            0 => valid,
            1 => (0..gen.r.below(60)).map(|_| gen.r.next() as u8).collect(),
            _ => (0..gen.r.below(40)).map(|_| *gen.r.pick(&[0u8, 1, 2, 3, 4, 5, 8, 0x0b, 0x13, 0x33, 0x7f, 0x80, 0xfe, 0xff])).collect(),
        };
        if gen.r.pct(30) && !input.is_empty() {
            let i = gen.r.below(input.len());
            input[i] = gen.r.next() as u8;
        }
        if input.len() > 1000 || zero_items(&gen.reg, ty) {
            continue;
        }
        let targets = [g, *gen.r.pick(all), *gen.r.pick(all)];
        sink.about(&case(&gen.reg, &input, targets.iter().map(|g| json!({"op": "conv", "ty": ty, "g": g, "via": 0})).collect()));
        let mut evs: Vec<Value> = vec![];
        for g in targets {
            evs.push(conv(&w.cat, &gen.reg, &input, ty, g, gen.r.below(2) as u32, VAL));
            if let (Def::Comp { fs, .. }, true) = (&gen.reg.0[ty as usize], w.cat.fields.contains_key(&g)) {
                evs.push(fields(&w.cat, &gen.reg, &input, fs, g, VAL));
            }
        }
        evs.push(crate::mc::skip(&gen.reg, &input, ty));
        let lost = evs.iter().any(|e| e["op"] == "panic" || e["p"].as_i64().unwrap_or(-1) < 0);
        if i < n || lost {
            sink.write(case(&gen.reg, &input, evs));
        } else {
            sink.count("also run, without an accident");
        }
    }
}
/// Does everything which values of the type consist of end?
fn acyclic(reg: &Reg, ty: u32) -> bool {
    fn end(reg: &Reg, t: u32, open: &mut Vec<u32>, done: &mut Vec<u32>) -> bool {
        if done.contains(&t) {
            return true;
        }
        if open.contains(&t) {
            return false;
        }
        open.push(t);
        let ok = match reg.0.get(t as usize) {
            None | Some(Def::Prim(_) | Def::Bits(..) | Def::Err) => true,
            Some(Def::Compact(t) | Def::Seq(t) | Def::Arr(t, _)) => end(reg, *t, open, done),
            Some(Def::Tup(ts)) => ts.iter().all(|t| end(reg, *t, open, done)),
            Some(Def::Comp { fs, .. }) => fs.iter().all(|f| end(reg, f.1, open, done)),
            Some(Def::Var { vs, .. }) => vs.iter().all(|v| v.fs.iter().all(|f| end(reg, f.1, open, done))),
        };
        open.pop();
        done.push(t);
        ok
    }
    end(reg, ty, &mut vec![], &mut vec![])
}

/// Lengths which nothing backs, and what it costs to find out.
pub fn hostile(w: &World, rng: &mut Rng, n: usize, sink: &mut Sink) {
    let all = w.groups(&["list", "arr", "hash", "leaf", "wrap", "opt", "any", "struct", "enum", "map", "tuple1"]);
    let mut done = 0;
    while done < n {
        let mut gen = Gen::new(rng.fork(), &w.table, Knobs { depth: 2, wrap: 5, size: 50, long: 0, ..Knobs::default() });
        let item = match gen.r.below(4) {
            0 => {
                let p = *gen.r.pick(&ALL_PRIMS);
                gen.reg.add(Def::Prim(p))
            }
            _ => {
                let g = *gen.r.pick(&all);
                gen.ty_for(g, false)
            }
        };
        if !gen.finite(item) || !acyclic(&gen.reg, item) {
            continue;
        }
        // what the length is of
        let what = gen.r.below(5);
        let claim: u128 = match gen.r.below(6) {
            0 => u64::MAX as u128,
            1 => u32::MAX as u128,
            2 => (1 << 30) - 1,
            3 => 1u128 << gen.r.range(14, 29),
            4 if what < 2 => 1u128 << gen.r.range(31, 63),
            _ => (1u128 << 31) + gen.r.below(1 << 30) as u128,
        };
        let claim = if what >= 2 { claim.min(u32::MAX as u128) } else { claim };
        let inner = match what {
            0 | 1 => gen.reg.add(Def::Seq(item)),
            2 => gen.reg.add(Def::Prim(P::Str)),
            3 => {
                let (s, m) = (*gen.r.pick(&[1, 2, 4, 8]), gen.r.pct(50));
                gen.reg.add(Def::Bits(s, m))
            }
            _ => gen.reg.add(Def::Arr(item, claim as u32)),
        };
        let mut input = vec![];
        let mut ty = inner;
        if gen.r.pct(40) {
            // as part of something
            ty = match gen.r.below(4) {
                0 => gen.wrap_once(inner),
                1 => gen.reg.add(Def::Tup(vec![inner, inner])),
                2 => {
                    input.push(4);
                    gen.reg.add(Def::Seq(inner))
                }
                _ => {
                    input.push(9);
                    let (n, i) = (crate::names::nid("Some"), 9);
                    gen.reg.add(Def::Var { path: vec![], vs: vec![Var { n, i, fs: vec![(0, inner)] }] })
                }
            };
        }
        if what < 4 {
            compact(claim, &mut input);
        }
        let zero = zero_items(&gen.reg, ty);
        for _ in 0..*gen.r.pick(&[0, 0, 1, 2, 5]) {
            if what < 2 || what == 4 {
                let v = gen.value(item);
                if v.len() < 100 {
                    input.extend(v)
                }
            } else {
                input.push(gen.r.next() as u8)
            }
        }
        if gen.r.pct(30) {
            input.pop();
        }
        let mut targets = vec![];
        if !zero {
            targets.push(w.groups(&["any"])[0]);
            targets.push(*gen.r.pick(&w.groups(&["list"])));
            targets.push(*gen.r.pick(&w.groups(&["arr", "hash", "leaf"])));
            targets.push(*gen.r.pick(&all));
            targets.push(w.groups(&["leaf"])[2 + gen.r.below(2)]);
        }
        sink.about(&case(&gen.reg, &input, targets.iter().map(|g| json!({"op": "conv", "ty": ty, "g": g, "via": 0})).collect()));
        let mut evs = vec![];
        let cost = |f: &mut dyn FnMut() -> Value| {
            let (mut ev, bytes, types) = crate::work::measure(f);
            ev["kb"] = json!((bytes / 1024).min(1 << 30));
            ev["n"] = json!(types.min(1 << 30));
            ev
        };
        for g in targets {
            let via = gen.r.below(2) as u32;
            evs.push(cost(&mut || conv(&w.cat, &gen.reg, &input, ty, g, via, VAL)));
        }
        evs.push(cost(&mut || crate::mc::skip(&gen.reg, &input, ty)));
        sink.write(case(&gen.reg, &input, evs));
        done += 1;
    }
}

/// Things within things within things, sound or with a claim or damage at the bottom.
pub fn deep_types(w: &World, rng: &mut Rng, n: usize, sink: &mut Sink) {
    let any = w.groups(&["any"])[0];
    for _ in 0..n {
        let mut gen = Gen::new(rng.fork(), &w.table, Knobs::default());
        let byte = gen.fresh(Def::Prim(P::U8));
        let (mut ty, mut input) = match gen.r.below(4) {
            0 => (byte, vec![7]),
            1 => (gen.fresh(Def::Tup(vec![])), vec![]),
            2 => (gen.fresh(Def::Seq(byte)), vec![8, 1, 2]),
            _ => (gen.fresh(Def::Seq(byte)), vec![0xfe, 0xff, 0xff, 0xff, 1]),
        };
        for _ in 0..gen.r.range(8, 30) {
            let before = gen.r.pct(15);
            let fs = if gen.r.pct(20) { if before { vec![byte, ty] } else { vec![ty, byte] } } else { vec![ty] };
            let of = |i: &[u8]| match (fs.len(), before) {
                (1, _) => i.to_vec(),
                (_, true) => [&[9], i].concat(),
                (_, false) => [i, &[9]].concat(),
            };
            (ty, input) = match gen.r.below(6) {
                0 => (gen.fresh(Def::Seq(ty)), [&[4], &input[..]].concat()),
                1 => (gen.fresh(Def::Arr(ty, 1)), input),
                2 => {
                    let i = of(&input);
                    (gen.fresh(Def::Tup(fs)), i)
                }
                3 => {
                    let i = [&[3], &of(&input)[..]].concat();
                    let (n, fs) = (crate::names::nid("Some"), fs.iter().map(|f| (0, *f)).collect());
                    (gen.fresh(Def::Var { path: vec![], vs: vec![Var { n, i: 3, fs }] }), i)
                }
                _ => {
                    let i = of(&input);
                    let names = [crate::names::nid("a"), crate::names::nid("b")];
                    let named = gen.r.pct(50);
                    (gen.comp(fs.iter().zip(names).map(|(f, n)| (if named { n } else { 0 }, *f)).collect()), i)
                }
            };
        }
        match gen.r.below(6) {
            0 => {
                input.pop();
            }
            1 if !input.is_empty() => {
                let at = gen.r.below(input.len());
                input[at] ^= 1 << gen.r.below(8);
            }
            _ => input.push(5),
        }
        sink.about(&case(&gen.reg, &input, vec![json!({"op": "conv", "ty": ty, "g": any, "via": 0})]));
        let cost = |f: &mut dyn FnMut() -> Value| {
            let (mut ev, bytes, types) = crate::work::measure(f);
            ev["kb"] = json!((bytes / 1024).min(1 << 30));
            ev["n"] = json!(types.min(1 << 30));
            ev
        };
        let mut evs = vec![cost(&mut || crate::mc::skip(&gen.reg, &input, ty))];
        evs.push(cost(&mut || conv(&w.cat, &gen.reg, &input, ty, any, 0, VAL)));
        sink.write(case(&gen.reg, &input, evs));
    }
}

/// The same with three resolvers.
pub struct Others {
    pub portable: Rc<Cat<scale_info::PortableRegistry>>,
    pub text: Rc<Cat<TextReg>>,
}
impl Others {
    /// (the table is that of the world: its first entries are the common ones)
    pub fn new() -> Others {
        let mut t = Table::new();
        let portable = Rc::new(small(&mut t));
        let mut t = Table::new();
        let text = Rc::new(small(&mut t));
        Others { portable, text }
    }
}
pub fn resolvers(w: &World, rng: &mut Rng, n: usize, many: usize, sink: &mut Sink) {
    let o = &w.others;
    let gs = w.groups(&["common"]);
    let mut done = 0;
    while done < n {
        let mut gen = Gen::new(rng.fork(), &w.table, Knobs { wrong: 3, size: 100, many, ..Knobs::default() });
        let g = *gen.r.pick(&gs);
        let ty = match gen.r.below(100) {
            0..40 if many >= 50 => {
                gen.k.many = 100;
                gen.random_var(0)
            }
            0..60 => gen.ty_for(g, false),
            _ => gen.random_ty(3, false),
        };
        if !gen.finite(ty) {
            continue;
        }
        let mut input = gen.value(ty);
        if input.len() > 1000 {
            continue;
        }
        if gen.r.pct(10) && !zero_items(&gen.reg, ty) && !input.is_empty() {
            let i = gen.r.below(input.len());
            input[i] = gen.r.next() as u8;
        }
        if gen.r.pct(10) {
            let i = gen.r.below(gen.reg.0.len());
            gen.reg.0[i] = if gen.r.pct(50) { Def::Err } else { Def::Seq(9999) };
        }
        let targets = [g, *gen.r.pick(&gs), w.groups(&["any"])[0]];
        let portable = gen.reg.portable();
        let text = TextReg(gen.reg.0.clone());
        sink.about(&case(&gen.reg, &input, targets.iter().map(|g| json!({"op": "conv", "ty": ty, "g": g, "via": 0})).collect()));
        let mut evs = vec![];
        for g in targets {
            let via = gen.r.below(2) as u32;
            let mut add = |mut ev: Value, rs: usize| {
                ev["rs"] = json!(rs);
                if rs == 1 && ev["e"][0] == "notfound" {
                    // (what is not there has another number among more types)
                    ev["e"][1][0] = json!(ev["e"][1][0].as_u64().unwrap_or(0).wrapping_sub(1000));
                }
                evs.push(ev)
            };
            add(conv(&w.cat, &gen.reg, &input, ty, g, via, ERR), 0);
            if o.portable.ops.contains_key(&g) {
                add(conv(&o.portable, &portable, &input, ty, g, via, ERR), 1);
                add(conv(&o.text, &text, &input, ty, g, via, ERR), 2);
            }
        }
        sink.write(case(&gen.reg, &input, evs));
        done += 1;
    }
}

/// Every integer type into every number, at all boundaries.
pub fn numbers(w: &World, rng: &mut Rng, full: bool, sink: &mut Sink) {
    let mut reg = Reg::default();
    let mut tys = vec![];
    for p in INTS {
        let t = reg.add(Def::Prim(p));
        tys.push((t, p, false));
    }
    for p in UINTS {
        let t = reg.add(Def::Prim(p));
        reg.0.push(Def::Compact(t));
        tys.push((reg.0.len() as u32 - 1, p, true));
    }
    let targets = w.groups(&["num", "nz"]);
    for (ty, p, c) in tys {
        let mut values: Vec<(bool, u128)> = vec![];
        for b in [0u32, 6, 7, 8, 14, 15, 16, 24, 30, 31, 32, 40, 48, 56, 62, 63, 64, 65, 72, 96, 120, 126, 127] {
            for d in -2i32..=1 {
                let m = if d < 0 { (1u128 << b).wrapping_sub(d.unsigned_abs() as u128) } else { (1u128 << b) + d as u128 };
                values.push((false, m));
                values.push((m != 0, m));
            }
        }
        values.push((false, u128::MAX));
        values.push((false, u128::MAX - 1));
        for _ in 0..(if full { 60 } else { 8 }) {
            let m = rng.u128() >> rng.below(128);
            values.push((false, m));
            values.push((m != 0, m));
        }
        values.retain(|v| fits(*v, p));
        values.sort();
        values.dedup();
        // a byte can be tried exhaustively
        if full && p.width() == 1 {
            values = (0..=255u8)
                .map(|b| if p.signed() { ((b as i8) < 0, (b as i8).unsigned_abs() as u128) } else { (false, b as u128) })
                .collect();
        }
        for v in values {
            let mut input = vec![];
            if c {
                compact(v.1, &mut input)
            } else {
                plain(v, p, &mut input)
            }
            input.extend(tail(rng));
            sink.about(&case(&reg, &input, vec![]));
            let evs = targets
                .iter()
                .map(|g| conv(&w.cat, &reg, &input, ty, *g, rng.below(2) as u32, ERR))
                .collect();
            sink.write(case(&reg, &input, evs));
        }
    }
}

/// Errors to which locations are added, by whoever passes them on.
pub fn contexts(r: &mut Rng, n: usize, sink: &mut Sink) {
    let names = crate::names::all();
    for _ in 0..n {
        let mut evs = vec![];
        for _ in 0..6 {
            let some = |r: &mut Rng| r.below(names.len()) as u32 + 1;
            let mag = |r: &mut Rng, bytes: usize| num_tok(false, (0..r.below(bytes) + 1).fold(1u128, |n, _| n << 8 | r.below(256) as u128) >> 8).1;
            let (cls, args): (&str, Vec<u32>) = match r.below(13) {
                0 => ("len", vec![r.below(1000) as u32, r.below(70000) as u32]),
                1 => ("field", vec![some(r)]),
                2 => ("variant", (0..r.below(5) + 1).map(|_| some(r)).collect()),
                3 => ("range+", mag(r, 15)),
                4 => ("range-", num_tok(true, 1 + r.next() as u128).1),
                5 => ("novariant", vec![r.below(256) as u32]),
                6 => ("char", mag(r, 3)),
                7 => ("compact", vec![]),
                8 => ("notfound", vec![r.below(100_000) as u32]),
                9 => ("resolve", vec![]),
                10 => ("unexpected:u8", vec![]),
                11 => ("input", vec![]),
                _ => ("custom", vec![]),
            };
            let text = if cls == "notfound" {
                format!("{}{}", ["", "type ", "my::ids::Id(\"", "2 of "][r.below(4)], args[0])
            } else if r.pct(10) { String::new() } else { format!("{}{}", names[r.below(names.len())], r.below(1000)) };
            let steps: Vec<Value> = (0..*r.pick(&[0, 1, 1, 2, 3, 4, 6, 9, 20, 60]))
                .map(|_| {
                    let (k, t) = match r.below(3) {
                        0 => ("i", r.pick(&[0usize, 1, 2, 9, 10, 63, 64, 255, 256, 65535, 65536, 1 << 32, usize::MAX]).to_string()),
                        1 => ("f", names[r.below(names.len())].to_string()),
                        _ => ("v", names[r.below(names.len())].to_string()),
                    };
                    json!([k, t, r.below(3)])
                })
                .collect();
            let cut = r.below(steps.len() + 1);
            evs.push(json!({"op": "ctx", "made": [cls, args, text], "by": r.below(6), "steps": steps, "cut": cut}));
        }
        let c = case(&Reg(vec![]), &[], evs.clone());
        sink.about(&c);
        let evs = evs.iter().map(context).collect();
        sink.write(case(&Reg(vec![]), &[], evs));
    }
}

/// Run again what a file of cases says.
pub fn replay(w: &World, cases: &[Value], sink: &mut Sink) {
    for c in cases {
        let reg = Reg::from_json(&c["reg"]);
        let input: Vec<u8> = c["in"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
        sink.about(c);
        let _ = nid;
        let empty = vec![];
        let old = c["evs"].as_array().unwrap_or(&empty);
        let chk = |ev: &Value| Chk {
            err: ev["st"].as_bool().unwrap_or(false),
            path: ev["pa"].as_bool().unwrap_or(false),
            cursor: ev["cu"].as_bool().unwrap_or(false),
        };
        let mut evs = vec![];
        if old.first().is_some_and(|e| e["op"] == "start") {
            let ty = old[0]["ty"].as_u64().unwrap() as u32;
            // what was recorded, or what was expected of the code
            let script = sess::Script::Fixed(c["script"].as_array().unwrap_or(old).clone());
            evs = session_by(w, c["rs"].as_u64().unwrap_or(0), &reg, &input, ty, script, vec![]);
        } else {
            for ev in old {
                let g = ev["g"].as_u64().unwrap_or(0) as usize;
                let via = ev["via"].as_u64().unwrap_or(0) as u32;
                let ty = ev["ty"].as_u64().unwrap_or(0) as u32;
                let measured = |mut f: Box<dyn FnMut() -> Value + '_>| {
                    if ev.get("kb").is_none() {
                        return f();
                    }
                    let (mut ev, bytes, types) = crate::work::measure(f);
                    ev["kb"] = json!((bytes / 1024).min(1 << 30));
                    ev["n"] = json!(types.min(1 << 30));
                    ev
                };
                match ev["op"].as_str().unwrap_or("") {
                    "skip" => evs.push(measured(Box::new(|| crate::mc::skip(&reg, &input, ty)))),
                    "conv" => {
                        let rs = ev["rs"].as_u64().unwrap_or(0);
                        let mut new = match rs {
                            1 => conv(&w.others.portable, &reg.portable(), &input, ty, g, via, chk(ev)),
                            2 => conv(&w.others.text, &TextReg(reg.0.clone()), &input, ty, g, via, chk(ev)),
                            _ => measured(Box::new(|| conv(&w.cat, &reg, &input, ty, g, via, chk(ev)))),
                        };
                        if ev.get("rs").is_some() {
                            new["rs"] = json!(rs);
                        }
                        evs.push(new)
                    }
                    "fields" => {
                        let fs: Fs = ev["fs"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|f| (f[0].as_u64().unwrap() as u32, f[1].as_u64().unwrap() as u32))
                            .collect();
                        evs.push(fields(&w.cat, &reg, &input, &fs, g, chk(ev)));
                    }
                    "ctx" => evs.push(context(ev)),
                    _ => {}
                }
            }
        }
        let mut out = c.clone();
        out["evs"] = Value::Array(evs);
        sink.write(out);
    }
}

/// Run a session with the main resolver.
pub fn session(w: &World, reg: &Reg, input: &[u8], ty: u32, script: sess::Script, typed: Vec<usize>) -> Vec<Value> {
    session_with(&w.cat, reg, input, ty, script, typed)
}
/// Run a session with one of the three resolvers.
pub fn session_by(
    w: &World,
    rs: u64,
    reg: &Reg,
    input: &[u8],
    ty: u32,
    script: sess::Script,
    typed: Vec<usize>,
) -> Vec<Value> {
    match rs {
        1 => session_with(&w.others.portable, &reg.portable(), input, ty, script, typed),
        2 => session_with(&w.others.text, &TextReg(reg.0.clone()), input, ty, script, typed),
        _ => session(w, reg, input, ty, script, typed),
    }
}
pub fn session_with<R: Rid>(
    cat: &Rc<Cat<R>>,
    types: &R,
    input: &[u8],
    ty: u32,
    script: sess::Script,
    typed: Vec<usize>,
) -> Vec<Value> {
    let cx = Rc::new(sess::Cx::new(input, types as *const R as usize, script, typed));
    let r = catch_unwind(AssertUnwindSafe(|| sess::run(&cx, cat, types, ty, input)));
    let mut evs = cx.log.take();
    if let Err(p) = r {
        evs.push(panic_event(p));
    }
    evs
}

/// Sessions of scripted visitors.
pub struct SessOpts {
    pub k: Knobs,
    pub profile: sess::Profile,
    /// decode items into targets as well, the types being made for those
    pub typed: bool,
    /// chance in 100 that the input is cut short or damaged
    pub damage: usize,
    /// chance in 100 that some type cannot be resolved
    pub dangling: usize,
    pub lens: Option<Vec<usize>>,
    /// lists of zero-width items can be as long as anyone likes (and nothing reads them to the end)
    pub endless: bool,
    /// only such types, instead of random ones
    pub leaf: Option<fn(&mut Gen) -> u32>,
    /// inputs of at most so many bytes
    pub most: usize,
    /// use all resolvers
    pub resolvers: bool,
    /// each session again with so many different bytes, or none, after the value
    pub tails: usize,
}
impl SessOpts {
    pub fn new(profile: sess::Profile) -> SessOpts {
        SessOpts {
            k: Knobs { size: 120, ..Knobs::default() },
            profile,
            typed: false,
            damage: 0,
            dangling: 0,
            lens: None,
            endless: false,
            leaf: None,
            most: 800,
            resolvers: false,
            tails: 0,
        }
    }
}
/// What the items of a target's data are decoded into.
fn parts(table: &Table, g: usize) -> Vec<usize> {
    match &table.ds[g] {
        D::List(t) | D::Set(t) | D::Heap(t) | D::Arr(t, _) | D::Map(t) | D::Opt(t) => vec![*t],
        D::Res(t, e) => vec![*t, *e],
        D::Tup(ts) => ts.clone(),
        D::Struct { fs, .. } => fs.iter().filter(|f| !f.skip).map(|f| f.t).collect(),
        D::Enum { vs } => vs.iter().flat_map(|v| v.fs.iter()).filter(|f| !f.skip).map(|f| f.t).collect(),
        D::Wrap(t) | D::Range(t) | D::Dur(t) => parts(table, *t),
        _ => vec![],
    }
}

pub fn sessions(w: &World, rng: &mut Rng, n: usize, o: &SessOpts, sink: &mut Sink) {
    let containers = w.groups(&["list", "arr", "opt", "res", "struct", "enum", "tuple", "map", "wrap", "skip"]);
    let common = w.groups(&["common"]);
    let any = w.groups(&["any"])[0];
    let moves = o.profile.modes[2] + o.profile.modes[3] + o.profile.modes[4] > 0;
    let mut done = 0;
    while done < n {
        let mut gen = Gen::new(rng.fork(), &w.table, o.k.clone());
        gen.lens = o.lens.clone();
        gen.endless = o.endless;
        let mut typed = vec![];
        let ty = if let Some(leaf) = o.leaf {
            leaf(&mut gen)
        } else if o.typed && gen.r.pct(65) {
            let g = *gen.r.pick(&containers);
            typed = parts(&w.table, g);
            gen.ty_for(g, false)
        } else {
            gen.random_ty(o.k.depth, false)
        };
        if !gen.finite(ty) {
            continue;
        }
        if o.typed {
            typed.push(any);
            typed.push(*gen.r.pick(&common));
            typed.retain(|g| w.cat.ops.contains_key(g) && (!o.resolvers || w.others.portable.ops.contains_key(g)));
        }
        if gen.r.pct(o.dangling) {
            let i = gen.r.below(gen.reg.0.len());
            gen.reg.0[i] = if gen.r.pct(50) { Def::Err } else { Def::Seq(9999) };
        }
        let mut input = gen.value(ty);
        if input.len() > o.most {
            continue;
        }
        let mut profile = o.profile.clone();
        if moves || o.damage > 0 || o.dangling > 0 {
            profile.recover = false;
            if zero_items(&gen.reg, ty) {
                continue;
            }
        }
        if gen.r.pct(o.damage) && !input.is_empty() {
            let i = gen.r.below(input.len());
            match gen.r.below(4) {
                0 => input.truncate(i),
                1 => input[i] = *gen.r.pick(&[0, 1, 2, 3, 4, 0x7f, 0x80, 0xff]),
                2 => input[i] ^= 1 << gen.r.below(8),
                _ => {
                    let i = input.len().saturating_sub(1 + gen.r.below(3));
                    input[i] = 255;
                }
            }
        } else if o.tails == 0 {
            input.extend(tail(&mut gen.r));
        }
        let rs = if o.resolvers { gen.r.below(3) as u64 } else { 0 };
        let choices = gen.r.fork();
        for i in 0..=o.tails {
            let mut input = input.clone();
            if i > 0 {
                input.extend(tail(&mut gen.r));
                input.push(*gen.r.pick(&[0, 1, 4, 255]));
            }
            sink.about(&case(&gen.reg, &input, vec![json!({"op": "start", "ty": ty, "m": "norm", "k": 0})]));
            let script = sess::Script::Random(choices.clone(), profile.clone());
            let evs = session_by(w, rs, &gen.reg, &input, ty, script, typed.clone());
            let mut c = case(&gen.reg, &input, evs);
            if rs > 0 {
                c["rs"] = json!(rs);
            }
            sink.write(c);
            done += 1;
        }
    }
}

/// What takes long to say: texts, bits and lists of so many items, as they are, in the middle of something else, or
/// seen through; and only now and then with something wrong.
pub fn long(w: &World, rng: &mut Rng, rounds: usize, lens: &[usize], kinds: &[&str], chk: Chk, sink: &mut Sink) {
    let any = w.groups(&["any"])[0];
    let small = |t: usize| matches!(w.table.ds[t], D::Num { .. } | D::Bool | D::Phantom);
    for _ in 0..rounds {
        for kind in kinds {
            for n in lens {
                // (what many items become is written out one by one, and takes that much longer to look through)
                let n = &if *kind == "list" { (*n).min(1026) } else { *n };
                let mut gen = Gen::new(rng.fork(), &w.table, Knobs { size: 1 << 20, ..Knobs::default() });
                gen.lens = Some(vec![*n]);
                let mut gs: Vec<usize> = vec![];
                let x = match *kind {
                    "text" => {
                        gs = (0..w.table.ds.len()).filter(|g| matches!(w.table.ds[*g], D::Str)).collect();
                        gen.k.broken_text = 20;
                        gen.fresh(Def::Prim(P::Str))
                    }
                    "bits" => {
                        gs = (0..w.table.ds.len()).filter(|g| matches!(w.table.ds[*g], D::Bits)).collect();
                        let d = Def::Bits(*gen.r.pick(&[1, 2, 4, 8]), gen.r.pct(50));
                        gen.fresh(d)
                    }
                    _ => {
                        let p = *gen.r.pick(&[P::U8, P::U8, P::Bool, P::U16, P::I8]);
                        let mut it = if gen.r.pct(10) { gen.fresh(Def::Tup(vec![])) } else { gen.fresh(Def::Prim(p)) };
                        if gen.r.pct(20) && p == P::U16 {
                            it = gen.fresh(Def::Compact(it));
                        }
                        for g in 0..w.table.ds.len() {
                            match w.table.ds[g] {
                                D::List(t) | D::Arr(t, _) if small(t) => gs.push(g),
                                D::Set(t) | D::Heap(t) if small(t) && *n < 5000 => gs.push(g),
                                _ => {}
                            }
                        }
                        if gen.r.pct(70) {
                            gen.fresh(Def::Seq(it))
                        } else {
                            gen.fresh(Def::Arr(it, *n as u32))
                        }
                    }
                };
                gs.retain(|g| w.cat.ops.contains_key(g));
                let mut targets = vec![any, *gen.r.pick(&gs), *gen.r.pick(&gs)];
                let ty = match gen.r.below(5) {
                    0 => {
                        let (u, v) = (gen.fresh(Def::Prim(P::U16)), gen.fresh(Def::Prim(P::Bool)));
                        targets.truncate(2);
                        gen.fresh(Def::Tup(vec![u, x, v]))
                    }
                    1 => gen.wrap_once(x),
                    _ => x,
                };
                if !gen.finite(ty) {
                    continue;
                }
                let mut input = gen.value(ty);
                if gen.r.pct(15) {
                    let cut = gen.r.below(3);
                    input.truncate(input.len().saturating_sub(1 + cut));
                } else {
                    input.extend(tail(&mut gen.r));
                }
                sink.about(&case(&gen.reg, &input, targets.iter().map(|g| json!({"op": "conv", "ty": ty, "g": g, "via": 0})).collect()));
                let mut evs: Vec<Value> =
                    targets.iter().map(|g| conv(&w.cat, &gen.reg, &input, ty, *g, gen.r.below(2) as u32, chk)).collect();
                evs.push(crate::mc::skip(&gen.reg, &input, ty));
                sink.write(case(&gen.reg, &input, evs));
            }
        }
    }
}

/// Everything in compact form which cannot be, and what can: as it is, and in others.
pub fn odd(w: &World, rng: &mut Rng, rounds: usize, chk: Chk, sink: &mut Sink) {
    let any = w.groups(&["any"])[0];
    let common = w.groups(&["num", "leaf", "list", "opt", "common"]);
    for round in 0..rounds {
        for kind in 0..34 {
            let mut gen = Gen::new(rng.fork(), &w.table, Knobs::default());
            let x = match kind {
                0..=14 => gen.fresh(Def::Prim(crate::reg::ALL_PRIMS[kind])),
                15..=22 => gen.fresh(Def::Bits([1, 2, 4, 8][(kind - 15) / 2], kind % 2 == 0)),
                23 => gen.fresh(Def::Tup(vec![])),
                24 => gen.comp(vec![]),
                k => {
                    let p = *gen.r.pick(&UINTS);
                    let u = gen.fresh(Def::Prim(p));
                    let names = gen.names(2);
                    match k {
                        25 => gen.fresh(Def::Tup(vec![u, u])),
                        26 => gen.comp(vec![(names[0], u), (names[1], u)]),
                        27 => gen.fresh(Def::Seq(u)),
                        28 => gen.fresh(Def::Arr(u, 0)),
                        29 => gen.fresh(Def::Arr(u, 1)),
                        30 => gen.fresh(Def::Compact(u)),
                        31 => gen.comp(vec![(names[0], u)]),
                        32 => gen.fresh(Def::Tup(vec![u])),
                        _ => gen.random_ty(2, false),
                    }
                }
            };
            let c = match gen.r.below(4) {
                0 => {
                    let t = gen.wrap_once(x);
                    gen.fresh(Def::Compact(t))
                }
                1 => {
                    let t = gen.fresh(Def::Compact(x));
                    gen.fresh(Def::Compact(t))
                }
                _ => gen.fresh(Def::Compact(x)),
            };
            let u = gen.fresh(Def::Prim(P::U8));
            let ty = match (round + kind) % 6 {
                0 | 1 => c,
                2 => gen.fresh(Def::Tup(vec![u, c, u])),
                3 => gen.fresh(Def::Seq(c)),
                4 => gen.fresh(Def::Arr(c, 2)),
                _ => {
                    let names = gen.names(2);
                    gen.comp(vec![(names[0], c), (names[1], u)])
                }
            };
            if !gen.finite(ty) {
                continue;
            }
            let mut input = gen.value(ty);
            input.extend(tail(&mut gen.r));
            let targets = [any, *gen.r.pick(&common)];
            sink.about(&case(&gen.reg, &input, targets.iter().map(|g| json!({"op": "conv", "ty": ty, "g": g, "via": 0})).collect()));
            let mut evs: Vec<Value> =
                targets.iter().map(|g| conv(&w.cat, &gen.reg, &input, ty, *g, gen.r.below(2) as u32, chk)).collect();
            evs.push(crate::mc::skip(&gen.reg, &input, ty));
            sink.write(case(&gen.reg, &input, evs));
        }
    }
}
