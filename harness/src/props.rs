//! Which cases decide which property.
use crate::gen::*;
use crate::rng::Rng;
use crate::sess::Profile;
use crate::suites::*;

const ALL: &[&str] = &[
    "num", "nz", "leaf", "wrap", "list", "arr", "hash", "opt", "res", "map", "tuple", "tuple1", "range", "dur", "marker",
    "struct", "skip", "enum", "any",
];

/// Numbers of things around which something may change.
const MANY_ITEMS: &[usize] = &[257, 511, 513, 1023, 1024, 1025, 4097, 16383, 16384, 16385];
const MANY_BYTES: &[usize] = &[255, 256, 4095, 4096, 16383, 16384, 32768, 65535, 65536, 65537, 70000];

/// What is compared of outcomes.
pub fn chk(id: &str) -> Chk {
    match id {
        "C03" => CUR,
        "C06" | "C08" | "C09" | "C10" | "C11" | "C12" | "C15" | "C18" | "C24" => ERR,
        "C07" | "C16" | "C17" | "C19" => FULL,
        _ => VAL,
    }
}

/// Something which holds what the visitor can look at only in place.
fn of_leaves(gen: &mut Gen, leaf: fn(&mut Gen) -> u32) -> u32 {
    use crate::reg::Def;
    let t = leaf(gen);
    match gen.r.below(7) {
        0 => t,
        1 => {
            let n = gen.r.below(4) as u32;
            gen.fresh(Def::Arr(t, n))
        }
        2 | 3 => gen.fresh(Def::Seq(t)),
        4 => {
            let (u, v) = (leaf(gen), leaf(gen));
            gen.fresh(Def::Tup(vec![t, u, v]))
        }
        n => {
            let u = leaf(gen);
            let names = gen.names(3);
            let s = gen.fresh(Def::Seq(u));
            let c = gen.comp(vec![(names[0], t), (names[1], u), (names[2], s)]);
            if n == 5 {
                c
            } else {
                let u = leaf(gen);
                gen.fresh(Def::Tup(vec![u, c]))
            }
        }
    }
}
fn texts(gen: &mut Gen) -> u32 {
    of_leaves(gen, |g| {
        use crate::reg::{Def, P};
        let p = *g.r.pick(&[P::Str, P::Str, P::Str, P::U256, P::I256]);
        g.fresh(Def::Prim(p))
    })
}
fn bit_types(gen: &mut Gen) -> u32 {
    of_leaves(gen, |g| {
        let d = crate::reg::Def::Bits(*g.r.pick(&[1, 2, 4, 8]), g.r.pct(50));
        g.fresh(d)
    })
}
/// Lists whose items have no bytes, of which there can be more than anyone can count to.
fn endless(gen: &mut Gen) -> u32 {
    use crate::reg::Def;
    of_leaves(gen, |g| {
        let item = match g.r.below(5) {
            0 | 1 => g.fresh(Def::Tup(vec![])),
            2 => g.comp(vec![]),
            3 => {
                let u = g.fresh(Def::Prim(crate::reg::P::U16));
                g.fresh(Def::Arr(u, 0))
            }
            _ => {
                let u = g.fresh(Def::Tup(vec![]));
                let v = g.comp(vec![]);
                g.fresh(Def::Tup(vec![u, v]))
            }
        };
        g.fresh(Def::Seq(item))
    })
}
fn endless_lists(w: &World, rng: &mut Rng, deep: bool, reader: bool, sink: &mut Sink) {
    let mut o = SessOpts::new(Profile { fuel: 40, ..if reader { Profile::reader() } else { Profile::mixed(40) } });
    o.leaf = Some(endless);
    o.endless = true;
    o.lens = Some(vec![0, 1, 2, 3]);
    if !reader {
        o.profile.ops = [14, 10, 3, 1, 5, 3, 0, 0, 6];
        o.profile.reject = 6;
    }
    sessions(w, rng, if deep { 1500 } else { 150 }, &o, sink);
}
/// Strings whose lengths take 1, 2 and 4 bytes to say.
fn long_texts(w: &World, rng: &mut Rng, deep: bool, sink: &mut Sink) {
    for n in [63usize, 64, 16383, 16384, 20000] {
        for text in [false, true] {
            let mut o = SessOpts::new(if text { Profile::mixed(12) } else { Profile::reader() });
            o.leaf = Some(texts);
            o.lens = Some(vec![0, 1, n]);
            o.most = 25000;
            sessions(w, rng, if deep { 10 } else { 2 }, &o, sink);
        }
    }
}

/// Sessions of scripted visitors which bear on a property.
fn sessions_for(w: &World, id: &str, rng: &mut Rng, deep: bool, sink: &mut Sink) {
    let n = |quick: usize| if deep { quick * 10 } else { quick * 2 };
    let depth = |d: usize| Knobs { depth: d, size: 120, ..Knobs::default() };
    // everything a visitor can do which does not move the cursor by itself
    let busy = |typed: bool| {
        let mut o = SessOpts::new(Profile::mixed(40));
        o.profile.reject = 6;
        o.typed = typed;
        o
    };
    // very wide things
    if ["C01", "C02", "C03", "C05", "C13", "C14", "C15", "C22", "C24"].contains(&id) {
        let mut o = if ["C01", "C05"].contains(&id) { SessOpts::new(Profile::reader()) } else { busy(false) };
        o.leaf = Some(|g| g.wide());
        o.profile.reject = 1;
        o.profile.fuel = 60;
        if id == "C05" {
            o.damage = 60;
        }
        o.resolvers = id == "C24";
        sessions(w, rng, n(if id == "C13" { 60 } else { 25 }), &o, sink);
    }
    match id {
        "C01" => {
            for d in 0..=if deep { 5 } else { 4 } {
                let mut o = SessOpts::new(Profile::reader());
                o.k = depth(d);
                o.k.compact = 30;
                sessions(w, rng, n(120), &o, sink);
            }
            endless_lists(w, rng, deep, true, sink);
        }
        "C02" => {
            for d in 0..=3 {
                let mut o = busy(d == 2);
                o.k = depth(d);
                o.tails = 2;
                o.profile.ops = [10, 10, 5, 1, 3, 2, 3, 2, 5];
                o.profile.reject = 0;
                sessions(w, rng, n(150), &o, sink);
            }
            let mut o = busy(false);
            o.tails = 2;
            o.leaf = Some(endless);
            o.endless = true;
            o.lens = Some(vec![0, 1, 2, 3]);
            sessions(w, rng, n(90), &o, sink);
            o.leaf = Some(bit_types);
            sessions(w, rng, n(90), &o, sink);
        }
        "C17" => {
            // all that a visitor can do, behind the adapter to the crate's error
            for d in 1..=3 {
                let mut o = busy(d == 2);
                o.k = depth(d);
                o.profile.modes = [6, 1, 0, 0, 0, 1, 1, 20];
                o.profile.ops = [14, 8, 6, 1, 1, 2, 3, 3, 2];
                sessions(w, rng, n(200), &o, sink);
            }
            let mut o = busy(false);
            o.leaf = Some(bit_types);
            o.profile.modes = [6, 1, 0, 0, 0, 1, 1, 20];
            o.damage = 30;
            sessions(w, rng, n(150), &o, sink);
        }
        "C03" => {
            for d in 1..=4 {
                let mut o = busy(d == 2);
                o.k = depth(d);
                o.profile.ops = [14, 6, 2, 1, 5, 2, 3, 1, 8];
                o.profile.modes = [20, 4, 0, 0, 0, 4, 4, 3];
                o.profile.reject = [0, 0, 5, 12, 25][d];
                o.profile.prop = [0, 100, 30, 10, 50][d];
                sessions(w, rng, n(350), &o, sink);
            }
            endless_lists(w, rng, deep, false, sink);
        }
        "C04" => {
            let mut o = busy(true);
            o.damage = 100;
            o.dangling = 10;
            o.profile.modes = [20, 4, 1, 1, 1, 2, 1, 3];
            o.k.broken_text = 40;
            sessions(w, rng, n(500), &o, sink);
            // text which is none
            o.leaf = Some(texts);
            o.damage = 20;
            o.k.broken_text = 80;
            sessions(w, rng, n(150), &o, sink);
        }
        "C05" => {
            for d in 1..=3 {
                let mut o = SessOpts::new(Profile::reader());
                o.k = depth(d);
                o.k.broken_text = 30;
                o.damage = 100;
                o.dangling = 10;
                sessions(w, rng, n(250), &o, sink);
                let mut o = busy(false);
                o.k = depth(d);
                o.damage = 100;
                sessions(w, rng, n(250), &o, sink);
            }
        }
        "C07" => {
            let mut o = busy(true);
            o.k.compact = 100;
            o.k.odd_compact = 12;
            o.k.wrap = 50;
            o.k.positional = 60;
            o.profile.ops = [8, 8, 6, 1, 1, 3, 8, 8, 2];
            sessions(w, rng, n(600), &o, sink);
        }
        "C13" => {
            for d in 1..=4 {
                let mut o = busy(d == 2);
                o.k = depth(d);
                o.profile.ops = [14, 10, 3, 1, 3, 3, 3, 1, 3];
                sessions(w, rng, n(350), &o, sink);
            }
            // many items and many operations
            let mut o = busy(true);
            o.k = depth(1);
            o.lens = Some(LENS.to_vec());
            o.profile.fuel = 150;
            sessions(w, rng, n(60), &o, sink);
            // with damage, and with visitors which move the cursor
            let mut o = busy(false);
            o.damage = 60;
            sessions(w, rng, n(250), &o, sink);
            let mut o = busy(false);
            o.profile.modes = [20, 2, 2, 1, 2, 2, 1, 2];
            sessions(w, rng, n(250), &o, sink);
            endless_lists(w, rng, deep, false, sink);
        }
        "C14" => {
            for d in 1..=3 {
                let mut o = busy(true);
                o.k = depth(d);
                o.k.compact = [0, 20, 80, 40][d];
                o.k.wrap = [0, 15, 50, 20][d];
                o.profile.ops = [4, 14, 12, 3, 1, 2, 2, 10, 3];
                o.profile.modes = [20, 3, 0, 0, 0, 2, 2, 3];
                o.profile.after = 8;
                sessions(w, rng, n(400), &o, sink);
            }
            let mut o = busy(false);
            o.profile.ops = [4, 14, 14, 3, 1, 2, 0, 0, 3];
            o.profile.modes = [20, 3, 3, 2, 4, 2, 2, 3];
            o.profile.after = 6;
            sessions(w, rng, n(300), &o, sink);
        }
        "C15" => {
            for d in 1..=4 {
                let mut o = busy(d == 3);
                o.k = depth(d);
                o.profile.reject = 20;
                o.profile.prop = [0, 100, 60, 30, 80][d];
                o.damage = [0, 0, 40, 70, 100][d];
                o.profile.recover = true;
                o.profile.modes = [20, 3, 0, 0, 0, 4, 3, 3];
                sessions(w, rng, n(300), &o, sink);
            }
            // rejections by visitors which take over
            let mut o = busy(false);
            o.damage = 30;
            o.profile.modes = [20, 1, 2, 5, 1, 2, 2, 3];
            sessions(w, rng, n(300), &o, sink);
        }
        "C20" => {
            const TEXTS: &[usize] = &[0, 1, 2, 3, 62, 63, 64, 65, 127, 128, 300];
            let mut o = busy(false);
            o.leaf = Some(texts);
            o.lens = Some(TEXTS.to_vec());
            o.k.broken_text = 30;
            sessions(w, rng, n(300), &o, sink);
            let mut o = SessOpts::new(Profile::reader());
            o.leaf = Some(texts);
            o.k.broken_text = 60;
            sessions(w, rng, n(200), &o, sink);
            let mut o = busy(false);
            o.k = depth(3);
            sessions(w, rng, n(400), &o, sink);
            let mut o = busy(false);
            o.leaf = Some(texts);
            o.damage = 60;
            sessions(w, rng, n(200), &o, sink);
            long_texts(w, rng, deep, sink);
        }
        "C21" => {
            let mut o = SessOpts::new(Profile::reader());
            o.leaf = Some(bit_types);
            o.lens = Some(vec![0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 300]);
            sessions(w, rng, n(300), &o, sink);
            o.damage = 100;
            sessions(w, rng, n(200), &o, sink);
            let mut o = busy(false);
            o.leaf = Some(bit_types);
            sessions(w, rng, n(200), &o, sink);
        }
        "C22" => {
            for d in 1..=3 {
                let mut o = busy(false);
                o.k = depth(d);
                o.profile.modes = [12, 1, 4, 3, 6, 5, 4, 9];
                o.profile.recover = false;
                sessions(w, rng, n(450), &o, sink);
            }
            // no cursor movement: so that rejections can be recovered from
            let mut o = busy(false);
            o.profile.modes = [12, 1, 0, 0, 0, 8, 6, 6];
            sessions(w, rng, n(400), &o, sink);
        }
        "C23" => endless_lists(w, rng, deep, false, sink),
        "C24" => {
            let mut o = busy(true);
            o.resolvers = true;
            sessions(w, rng, n(500), &o, sink);
            let mut o = SessOpts::new(Profile::reader());
            o.resolvers = true;
            o.k = depth(4);
            sessions(w, rng, n(200), &o, sink);
        }
        "sess" => {
            let mut o = busy(true);
            o.damage = 20;
            sessions(w, rng, n(2000), &o, sink);
        }
        _ => {}
    }
}

pub fn generate(w: &World, id: &str, seed: u64, tier: &str, sink: &mut Sink) {
    let deep = tier == "thorough";
    let mut r = Rng::new(seed ^ id.bytes().fold(0u64, |a, b| a * 31 + b as u64));
    let n = |quick: usize| if deep { quick * 10 } else { quick * 2 };
    let rng = &mut r;
    let any = w.groups(&["any"])[0];
    let opts = |gs: &'static [&'static str]| {
        let mut o = Opts::new(gs);
        o.chk = chk(id);
        o
    };
    // the same, with as much as possible in compact form, wrapped, or wrong
    let knobs = |f: &dyn Fn(&mut Knobs)| {
        let mut k = Knobs::default();
        f(&mut k);
        k
    };
    sessions_for(w, id, rng, deep, sink);
    match id {
        "C01" => {
            long(w, rng, n(1), MANY_ITEMS, &["text", "bits", "list"], VAL, sink);
            let mut o = opts(&["any"]);
            for depth in 0..=if deep { 5 } else { 4 } {
                o.k.depth = depth;
                random(w, rng, n(300), &o, &[any], sink);
            }
            o.lens = Some(LENS.to_vec());
            o.k.depth = 1;
            random(w, rng, n(60), &o, &[any], sink);
        }
        "C02" => {
            let mut o = opts(ALL);
            o.values = 3;
            directed(w, rng, n(1500), &o, sink);
            random(w, rng, n(600), &o, &[any], sink);
            let mut o = opts(&["struct", "skip", "tuple"]);
            o.values = 3;
            o.by_fields = true;
            o.k.extra = 60;
            directed(w, rng, n(300), &o, sink);
            long(w, rng, n(1), MANY_ITEMS, &["text", "bits", "list"], VAL, sink);
        }
        "C03" => {
            // (well formed data which the targets reject somewhere)
            let mut o = opts(ALL);
            o.cross = 100;
            o.k.wrong = 15;
            directed(w, rng, n(1200), &o, sink);
            let all = w.groups(ALL);
            random(w, rng, n(400), &o, &all, sink);
            // from a list of fields
            let mut o = opts(&["struct", "skip", "tuple"]);
            o.by_fields = true;
            o.cross = 50;
            o.k.wrong = 15;
            o.k.extra = 60;
            directed(w, rng, n(300), &o, sink);
        }
        "C04" => fuzz(w, rng, n(1200), n(20_000), sink),
        "C05" => {
            odd(w, rng, n(4), VAL, sink);
            long(w, rng, n(1), MANY_ITEMS, &["text", "bits", "list"], VAL, sink);
            for depth in 0..=if deep { 4 } else { 3 } {
                broken(w, rng, n(700), depth, sink);
            }
        }
        "C06" => {
            numbers(w, rng, deep, sink);
            let mut o = opts(&["num", "nz"]);
            o.any_num = true;
            directed(w, rng, n(500), &o, sink);
        }
        "C07" => {
            odd(w, rng, n(4), chk(id), sink);
            let mut o = opts(ALL);
            o.k = knobs(&|k| {
                k.compact = 90;
                k.wrap = 30;
            });
            directed(w, rng, n(900), &o, sink);
            o.k.odd_compact = 60;
            directed(w, rng, n(250), &o, sink);
            let mut o = opts(&["num", "nz", "wrap", "tuple1", "struct", "any", "map", "opt", "list"]);
            o.k = knobs(&|k| {
                k.compact = 100;
                k.wrap = 50;
                k.positional = 50;
            });
            o.any_num = true;
            directed(w, rng, n(900), &o, sink);
        }
        "C08" => {
            let mut o = opts(&["num", "nz", "leaf", "list", "arr", "hash", "opt", "res", "enum"]);
            o.k.wrap = 75;
            directed(w, rng, n(1500), &o, sink);
            // also around everything, and with another number of fields
            let mut o = opts(&["num", "nz", "leaf", "list", "arr", "hash", "opt", "res", "enum"]);
            o.k.wrap = 60;
            o.k.wrong = 10;
            directed(w, rng, n(500), &o, sink);
        }
        "C09" => {
            let mut o = opts(&["list", "arr", "hash"]);
            directed(w, rng, n(900), &o, sink);
            o.k.wrong = 20;
            o.k.wrap = 5;
            directed(w, rng, n(500), &o, sink);
            o.k.wrong = 0;
            o.lens = Some(LENS.to_vec());
            o.values = 1;
            o.cross = 50;
            directed(w, rng, n(250), &o, sink);
            long(w, rng, n(2), MANY_ITEMS, &["list"], chk(id), sink);
        }
        "C10" => {
            let mut o = opts(&["struct"]);
            o.k.many = 4;
            o.k.extra = 60;
            directed(w, rng, n(1200), &o, sink);
            o.k.wrong = 6;
            o.cross = 40;
            directed(w, rng, n(900), &o, sink);
        }
        "C11" => {
            let mut o = opts(&["enum", "opt", "res"]);
            directed(w, rng, n(1300), &o, sink);
            o.k.many = 100;
            o.values = 3;
            directed(w, rng, n(40), &o, sink);
            o.k.many = 0;
            o.values = 2;
            o.k.wrong = 6;
            o.cross = 40;
            directed(w, rng, n(900), &o, sink);
        }
        "C12" => {
            let mut o = opts(&["skip"]);
            o.k.many = 4;
            o.k.extra = 60;
            directed(w, rng, n(1300), &o, sink);
            o.k.wrong = 6;
            o.cross = 50;
            directed(w, rng, n(700), &o, sink);
        }
        "C15" => {
            // one thing is wrong for the target, and what comes after it is malformed as well
            let mut o = opts(ALL);
            o.single = true;
            o.k.wrong = 5;
            masked(w, rng, n(1500), &o, sink);
        }
        "C16" => {
            let mut o = opts(ALL);
            o.single = true;
            o.cross = 0;
            o.k.wrong = 4;
            directed(w, rng, n(2200), &o, sink);
            // types which are not there
            o.dangling = 100;
            o.values = 1;
            directed(w, rng, n(300), &o, sink);
            // far into long lists
            let mut o = opts(&["list", "arr", "hash"]);
            o.single = true;
            o.cross = 0;
            o.lens = Some(vec![257, 300, 520]);
            o.k.wrong = 0;
            directed(w, rng, n(120), &o, sink);
            contexts(rng, n(150), sink);
        }
        "C17" => {
            let mut o = opts(&["wrap"]);
            o.k.compact = 50;
            directed(w, rng, n(1200), &o, sink);
            o.k.wrong = 10;
            o.cross = 40;
            directed(w, rng, n(800), &o, sink);
        }
        "C18" => {
            let mut o = opts(&["tuple", "tuple1", "range", "dur", "marker"]);
            o.k.many = 4;
            directed(w, rng, n(1200), &o, sink);
            o.k.wrong = 8;
            o.cross = 50;
            directed(w, rng, n(900), &o, sink);
        }
        "C19" => {
            let mut o = opts(&["struct", "skip", "tuple"]);
            o.k.many = 4;
            o.by_fields = true;
            o.k.extra = 60;
            directed(w, rng, n(1000), &o, sink);
            o.k.wrong = 6;
            o.cross = 40;
            directed(w, rng, n(800), &o, sink);
        }
        "C20" | "C21" => {
            let mut o = opts(&["leaf"]);
            o.lens = Some(vec![0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300]);
            o.k.broken_text = 40;
            directed(w, rng, n(300), &o, sink);
            if id == "C20" {
                long(w, rng, n(2), MANY_BYTES, &["text"], VAL, sink);
            } else {
                long(w, rng, n(2), MANY_ITEMS, &["bits"], VAL, sink);
                long(w, rng, n(2), MANY_BYTES, &["bits"], VAL, sink);
            }
        }
        "C23" => {
            deep_types(w, rng, n(150), sink);
            hostile(w, rng, n(1200), sink)
        }
        "C24" => {
            resolvers(w, rng, n(900), 1, sink);
            resolvers(w, rng, n(120), 60, sink);
        }
        "C25" => {
            let mut o = opts(&["map"]);
            o.k.many = 4;
            directed(w, rng, n(1300), &o, sink);
            o.k.wrong = 8;
            o.cross = 40;
            directed(w, rng, n(700), &o, sink);
        }
        "all" => {
            let mut o = Opts::new(ALL);
            o.chk = FULL;
            o.cross = 20;
            directed(w, rng, n(3000), &o, sink);
        }
        _ => {}
    }
}
