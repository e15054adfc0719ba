//! Replay of what the model checker explored: for every input and type of the small worlds, the
//! outcome which the specification gives for each target is compared with what the code does.
use crate::props::chk;
use crate::reg::*;
use crate::suites::*;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::BufRead;
use std::sync::Mutex;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Which properties are also about skipping.
fn skips(id: &str) -> bool {
    matches!(id, "C01" | "C02" | "C03" | "C04" | "C05" | "C07" | "C21" | "C23")
}

pub fn skip(reg: &Reg, input: &[u8], ty: u32) -> Value {
    let mut cursor = input;
    let r = catch_unwind(AssertUnwindSafe(|| {
        decode_with_visitor(&mut cursor, ty, reg, IgnoreVisitor::<Reg>::new()).is_ok()
    }));
    let tail = cursor.len() <= input.len()
        && cursor.as_ptr() as usize + cursor.len() == input.as_ptr() as usize + input.len();
    match r {
        Err(_) => json!({"op": "panic"}),
        Ok(ok) => json!({"op": "skip", "ty": ty, "ok": ok, "p": if tail { (input.len() - cursor.len()) as i64 } else { -1 }}),
    }
}

#[derive(Default)]
struct Tally {
    states: u64,
    outcomes: u64,
    wrong: u64,
    good: u64,
    kinds: BTreeMap<String, u64>,
    out: Vec<Value>,
    sample: Value,
}
impl Tally {
    fn wrong(&mut self, c: impl FnOnce() -> Value) {
        self.wrong += 1;
        if self.out.len() < 5 {
            self.out.push(c())
        }
    }
    fn add(&mut self, o: Tally) {
        self.states += o.states;
        self.outcomes += o.outcomes;
        self.wrong += o.wrong;
        self.good += o.good;
        for (k, n) in o.kinds {
            *self.kinds.entry(k).or_default() += n;
        }
        self.out.extend(o.out);
        if self.sample.is_null() {
            self.sample = o.sample
        }
    }
}

pub fn replay(id: &str, dump: &str, out: &mut Vec<Value>) -> Value {
    each(id, dump, out, one)
}

/// Sessions, with all they have to show.
pub fn follow(id: &str, dump: &str, out: &mut Vec<Value>) -> Value {
    each(id, dump, out, session_as_expected)
}

type Job = fn(&World, &str, &BTreeMap<u64, Reg>, &str, &mut Tally);
fn each(id: &str, dump: &str, out: &mut Vec<Value>, job: Job) -> Value {
    let open = || std::io::BufReader::new(std::fs::File::open(dump).expect("dump")).lines().map(|l| l.expect("text"));
    let mut regs: BTreeMap<u64, Reg> = BTreeMap::new();
    for line in open().filter(|l| l.contains("\"world\"")) {
        let d: Value = serde_json::from_str(&line).expect("json");
        regs.insert(d["world"].as_u64().unwrap(), Reg::from_json(&d["reg"]));
    }
    let lines = Mutex::new(open());
    let total = Mutex::new(Tally::default());
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    let w = World::new();
                    let mut t = Tally::default();
                    loop {
                        let chunk: Vec<String> = lines.lock().unwrap().by_ref().take(32).collect();
                        if chunk.is_empty() {
                            break;
                        }
                        for line in chunk {
                            if !line.contains("\"world\"") {
                                job(&w, id, &regs, &line, &mut t)
                            }
                        }
                    }
                    idle();
                    total.lock().unwrap().add(t);
                })
                .unwrap();
        }
    });
    let t = total.into_inner().unwrap();
    out.extend(t.out);
    json!({"states": t.states, "outcomes": t.outcomes, "wrong": t.wrong, "ok": t.good, "errors": t.kinds, "sample": t.sample})
}

fn one(w: &World, id: &str, regs: &BTreeMap<u64, Reg>, line: &str, tally: &mut Tally) {
    let chk = chk(id);
    let d: Value = serde_json::from_str(line).expect("json");
    tally.states += 1;
    let reg = &regs[&d["w"].as_u64().unwrap()];
    let input: Vec<u8> = d["in"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
    busy();
    for t in d["rs"].as_array().unwrap() {
        let ty = t[0].as_u64().unwrap() as u32;
        let by_fields = t[1].as_bool().unwrap();
        let q = t[2].as_i64().unwrap();
        if skips(id) {
            tally.outcomes += 1;
            let ev = skip(reg, &input, ty);
            let p = ev["p"].as_i64().unwrap_or(-1);
            let fine = ev["op"] == "skip"
                && ev["ok"].as_bool().unwrap() == (q >= 0)
                && if q >= 0 { p == q } else { p >= 0 };
            if !fine {
                tally.wrong(|| {
                    let mut c = case(reg, &input, vec![ev]);
                    c["expected"] = json!({"ends": q});
                    c
                });
            }
        }
        for o in t[3].as_array().unwrap() {
            let g = o[0].as_u64().unwrap() as usize;
            let ok = o.as_array().unwrap().len() == 3;
            if !w.cat.ops.contains_key(&g) {
                // only part of other targets
                continue;
            }
            for via in 0..2 {
                let ev = if by_fields {
                    let Def::Comp { fs, .. } = &reg.0[ty as usize] else { panic!("fields of a composite") };
                    if via == 1 || !w.cat.fields.contains_key(&g) {
                        continue;
                    }
                    fields(&w.cat, reg, &input, fs, g, chk)
                } else {
                    conv(&w.cat, reg, &input, ty, g, via, chk)
                };
                tally.outcomes += 1;
                let p = ev["p"].as_i64().unwrap_or(-1);
                let same = ev["op"] != "panic"
                    && ev["ok"].as_bool() == Some(ok)
                    && p >= 0
                    && if ok {
                        ev["v"] == o[1] && ev["p"] == o[2]
                    } else {
                        let cls = &o[1][0];
                        (!chk.err || ev["e"][0] == *cls && ev["e"][1] == o[1][1])
                            && (!chk.path || (ev["path"] == o[2] && ev["disp"] == true))
                            && (!chk.cursor || q < 0 || p == q)
                    };
                if ok {
                    tally.good += 1
                } else {
                    *tally.kinds.entry(o[1][0].as_str().unwrap_or("?").to_string()).or_default() += 1
                }
                if !same {
                    tally.wrong(|| {
                        let mut c = case(reg, &input, vec![ev]);
                        c["expected"] = o.clone();
                        c
                    });
                } else if tally.sample.is_null() && ok && ty > 3 {
                    tally.sample = case(reg, &input, vec![ev]);
                }
            }
        }
    }
}

/// Everything that is expected must be there.
fn shows(ev: &Value, want: &Value) -> bool {
    let Some(want) = want.as_object() else { return false };
    want.iter().all(|(k, x)| match k.as_str() {
        // (nothing to compare is written as an empty list)
        "o" | "it" => x.as_array().is_some_and(|x| x.is_empty()) || x.as_object().is_some_and(|x| x.iter().all(|(j, y)| ev[k][j] == *y)),
        _ => ev[k] == *x,
    })
}

fn session_as_expected(w: &World, id: &str, regs: &BTreeMap<u64, Reg>, line: &str, tally: &mut Tally) {
    let d: Value = serde_json::from_str(line).expect("json");
    tally.states += 1;
    let reg = &regs[&d["w"].as_u64().unwrap()];
    let input: Vec<u8> = d["in"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
    let want = d["evs"].as_array().unwrap();
    let ty = want[0]["ty"].as_u64().unwrap() as u32;
    busy();
    for rs in 0..if id == "C24" { 3 } else { 1 } {
        let script = crate::sess::Script::Fixed(want.clone());
        let evs = session_by(w, rs, reg, &input, ty, script, vec![]);
        tally.outcomes += want.len() as u64;
        let differs = (0..want.len().max(evs.len())).find(|i| match (evs.get(*i), want.get(*i)) {
            (Some(ev), Some(want)) => !shows(ev, want),
            _ => true,
        });
        let done = want.iter().find(|e| e["op"] == "done").map(|e| e["r"].as_str().unwrap_or("?")).unwrap_or("?");
        if done == "ok" {
            tally.good += 1
        } else {
            *tally.kinds.entry(done.to_string()).or_default() += 1
        }
        let c = |evs: &[Value]| {
            let mut c = case(reg, &input, evs.to_vec());
            if rs > 0 {
                c["rs"] = json!(rs);
            }
            c
        };
        if let Some(i) = differs {
            tally.wrong(|| {
                let mut c = c(&evs[..evs.len().min(i + 1)]);
                c["expected"] = want.get(i).cloned().unwrap_or(json!("nothing more"));
                c["script"] = json!(want);
                c
            });
        } else if tally.sample.is_null() && done == "ok" && want.len() > 8 {
            tally.sample = c(&evs);
        }
    }
}
