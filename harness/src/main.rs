mod any;
mod catalog;
mod desc;
mod gen;
mod mc;
mod names;
mod out;
mod props;
mod reg;
mod rng;
mod sess;
mod suites;
mod work;

#[global_allocator]
static ALLOC: work::Counting = work::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    // quietly: panics are caught, and reported as events
    std::panic::set_hook(Box::new(|_| {}));
    // deep types need a deep stack
    let args2 = args.clone();
    let run = std::thread::Builder::new().stack_size(512 << 20);
    match arg(1) {
        "world" => println!("{}", suites::World::new().json()),
        // targets which are only part of others
        "parts" => {
            let w = suites::World::new();
            for (g, name) in w.table.rust.iter().enumerate().filter(|(g, _)| !w.cat.ops.contains_key(g)) {
                println!("{g} {name}")
            }
        }
        // gen PROPERTY SEED TIER OUT
        "gen" => {
            let h = run.spawn(move || {
                suites::watchdog(60_000);
                let w = suites::World::new();
                let mut sink = suites::Sink::new(&args2[5]);
                props::generate(&w, &args2[2], args2[3].parse().expect("seed"), &args2[4], &mut sink);
                println!("{}", sink.finish());
            });
            if h.unwrap().join().is_err() {
                std::process::exit(4)
            }
        }
        // mc PROPERTY DUMP OUT: compare with what the model checker wrote; cases which differ go to OUT
        // follow PROPERTY DUMP OUT: the same for sessions
        "mc" | "follow" => {
            let h = run.spawn(move || {
                suites::watchdog(60_000);
                let mut out = vec![];
                let f = if args2[1] == "mc" { mc::replay } else { mc::follow };
                let summary = f(&args2[2], &args2[3], &mut out);
                let lines: String = out.iter().map(|c| format!("{c}\n")).collect();
                std::fs::write(&args2[4], lines).expect("output file");
                println!("{summary}");
            });
            if h.unwrap().join().is_err() {
                std::process::exit(4)
            }
        }
        // replay IN OUT
        "replay" => {
            let h = run.spawn(move || {
                suites::watchdog(60_000);
                let w = suites::World::new();
                let cases: Vec<serde_json::Value> = std::fs::read_to_string(&args2[2])
                    .expect("cases")
                    .lines()
                    .filter(|l| !l.is_empty())
                    .map(|l| serde_json::from_str(l).expect("a case"))
                    .collect();
                let mut sink = suites::Sink::new(&args2[3]);
                suites::replay(&w, &cases, &mut sink);
                println!("{}", sink.finish());
            });
            if h.unwrap().join().is_err() {
                std::process::exit(4)
            }
        }
        _ => {
            eprintln!("usage: harness world | gen PROPERTY SEED TIER OUT | mc PROPERTY DUMP OUT | replay IN OUT");
            std::process::exit(2);
        }
    }
}
