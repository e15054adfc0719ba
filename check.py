#!/usr/bin/env python3
"""Decide a property of /repo's working tree with the specification in /verif/spec.

    check.py ID [quick|thorough]    run the check of property ID
    check.py replay FILE            run again what a violation's replay file says
    check.py build                  only build the harness

A check has up to three parts, which run at the same time where they can:
  explore   TLC explores a small world exhaustively (spec/ConvMC or spec/SessMC); the law of the
            property is an invariant, and every state is written out with what the specification
            expects of the code there,
  follow    the harness replays each of those states against the code,
  observe   the harness records what the code does with generated cases, and TLC checks each
            record against the specification (spec/ConvTrace, spec/SessTrace).

Exit 0: the property held; 1: it did not (and a VIOLATION line); 2: the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
WORLD = os.path.join(SPEC, "world.json")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

CONV_MC = {"C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C16", "C17",
           "C18", "C19", "C21", "C23", "C25"}
SESS_MC = {"C01", "C02", "C03", "C04", "C05", "C07", "C17", "C21", "C23", "C13", "C14", "C15", "C20", "C22", "C24"}
# properties of the derive macro: that it copes with the less usual attributes is part of them
DERIVE = {"C10", "C11", "C12"}
ALL = ["C%02d" % i for i in range(1, 26)]

SAMPLE_LIMIT = 1500
T0 = time.time()


class Failure(Exception):
    """of the check, not of what it checks"""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def env(**more):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    e.update(more)
    return e


def cargo(features):
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]
    return subprocess.Popen(cmd + features, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                            errors="replace")


def build():
    """The harness's path, and the compiler's complaints if the unusual targets had to be left out."""
    p = cargo([])
    out = p.communicate()[0]
    complaint = None
    if p.returncode != 0:
        q = cargo(["--no-default-features"])
        out2 = q.communicate()[0]
        if q.returncode != 0 and "could not compile `harness`" in out2 and "derive macro `DecodeAsType`" in out2:
            raise NotDerived(out2[-6000:])
        gone = GONE.findall(out2)
        if q.returncode != 0 and gone and "could not compile `harness`" in out2:
            raise Unsupported(gone, out2[-6000:])
        if q.returncode != 0:
            raise Failure("the harness does not build:\n" + out2[-6000:])
        complaint = out
    return os.path.join(BUILD, "debug", "harness"), complaint


class NotDerived(Failure):
    """The library builds, and what it derives for the targets does not compile."""


class Unsupported(Failure):
    """The library builds, and some type which should be a target is none any more."""

    def __init__(self, gone, text):
        Failure.__init__(self, text)
        self.gone = gone

    def of(self, prop):
        """The types whose being a target this property is about."""
        return sorted({t for t, trait in self.gone if whose(t, trait) == prop})


GONE = re.compile(r"the trait bound `(.*?)(?:<'_>)?: (?:[a-z_]+::)*(IntoVisitor|DecodeAsType|DecodeAsFields)` is not satisfied")
WHOSE = [(r"\(|Range|Duration|PhantomData", "C18"), (r"Box|Arc|Rc|Cow|Compact|CompactRef|VisitorWithCrateError", "C17"),
         (r"Vec|LinkedList|BTreeSet|BinaryHeap|\[|H\d+", "C09"), (r"Option|Result", "C11"), (r"BTreeMap", "C25"),
         (r"[ui](\d+|size)$|NonZero", "C06"), (r"bool|char|String|Bits", "C08")]


def whose(t, trait):
    if trait == "DecodeAsFields":
        return "C19"
    t = re.sub(r"^(\w+::)+", "", t)
    for pattern, prop in WHOSE:
        if re.match(pattern, t):
            return prop
    return None


class Tlc:
    """TLC running some module, with what it needs to know in its environment."""

    def __init__(self, work, module, workers=8, mem="6g", **vars):
        meta = os.path.join(work, "tlc-" + module)
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(os.path.join(meta, "tmp"))
        self.module = module
        self.path = os.path.join(work, module + ".log")
        self.out = open(self.path, "w")
        self.meta = meta
        cmd = ["java", "-Xss512m", "-Xmx" + mem, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
               "-Djava.io.tmpdir=" + os.path.join(meta, "tmp"), "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", module + ".cfg", module + ".tla"]
        self.p = subprocess.Popen(cmd, cwd=SPEC, env=env(WORLD=WORLD, **vars), stdout=self.out, stderr=subprocess.STDOUT,
                                  start_new_session=True)

    def wait(self):
        """States generated and distinct, and the output."""
        self.p.wait()
        self.out.close()
        shutil.rmtree(self.meta, ignore_errors=True)
        text = open(self.path, errors="replace").read()
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, 0 states left", text)
        if self.p.returncode != 0 or not m:
            raise Failure("TLC (%s) failed, see %s:\n%s" % (self.module, self.path, text[-3000:]))
        return int(m[-1][0]), int(m[-1][1]), text

    def stop(self):
        if self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()


def lines(path):
    with open(path, encoding="utf-8", errors="replace") as f:
        return [l for l in f if l.strip()]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, ".work", "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}

    def violation(self, what, data):
        """data: what the replay file says"""
        n = len(self.violations) + 1
        path = os.path.join(self.replays, "%s-%d.json" % (self.prop, n))
        data = dict(data, property=self.prop, what=what)
        with open(path, "w") as f:
            json.dump(data, f)
        self.violations.append(path)
        if n <= 3:
            log("violation:", what[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def run_harness(self, args, what, current=None):
        """The harness's summary, or None if it did not come to an end."""
        p = subprocess.run([self.harness] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), text=True,
                           errors="replace")
        if p.returncode == 0:
            return json.loads(p.stdout.strip().splitlines()[-1])
        how = {3: "it hangs"}.get(p.returncode, "the process dies (%d)" % p.returncode)
        if p.returncode == 2:
            raise Failure("the harness: " + p.stderr[-2000:])
        case = None
        if current and os.path.exists(current):
            case = json.load(open(current))
        if p.returncode == 4:
            raise Failure("the harness panicked: " + p.stderr[-2000:])
        self.violation("%s: %s" % (what, how), {"case": case, "stderr": p.stderr[-2000:]})
        return None

    # -- observe
    def observe(self):
        out = os.path.join(self.work, "cases")
        s = self.run_harness(["gen", self.prop, str(self.seed), self.tier, out], "generated cases", out + ".current")
        if s is None:
            return
        log("recorded %d cases with %d events" % (s["cases"], s["events"]))
        self.cov["recorded_events"] = s["counts"]
        for c in s["samples"][:2]:
            if len(json.dumps(c)) < SAMPLE_LIMIT:
                self.cov["samples"].append({"recorded and accepted": c})
        for ext, module in ((".conv", "ConvTrace"), (".sess", "SessTrace")):
            path = out + ext
            if os.path.getsize(path) > 0:
                self.validate(path, module)

    def validate(self, path, module):
        cases = lines(path)
        t = Tlc(self.work, module, CASES=path, PROP=self.prop, TIER=self.tier)
        gen, distinct, text = t.wait()
        events = sum(l.count('"op":') for l in cases) if module == "ConvTrace" else None
        rejected = {}
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+), (.*?)>>\s*$', text, re.M):
            rejected.setdefault(int(m.group(1)), (int(m.group(2)), m.group(3)))
        if module == "SessTrace":
            accepted = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', text))
            for i in range(1, len(cases) + 1):
                if i not in accepted:
                    rejected.setdefault(i, (0, "no behaviour of the specification is like this"))
                else:
                    rejected.pop(i, None)
        elif not rejected and events is not None:
            want = len(cases) + sum(len(json.loads(l)["evs"]) for l in cases)
            if distinct != want:
                raise Failure("%s: %d states instead of %d" % (module, distinct, want))
        log("%s: %d of %d cases accepted (%d states)" % (module, len(cases) - len(rejected), len(cases), distinct))
        self.cov["traces_validated_against_impl"] += len(cases) - len(rejected)
        self.cov["transitions"] += gen - len(cases)
        self.cov["states"] += distinct
        for n, (l, expected) in list(sorted(rejected.items()))[:10]:
            case = json.loads(cases[n - 1])
            ev = case["evs"][l - 1] if 0 < l <= len(case["evs"]) else None
            self.violation("the code does what the specification does not allow: event %d, %s; the specification says %s"
                           % (l, json.dumps(ev)[:500], expected[:700]),
                           {"case": case, "event": l, "expected": expected, "module": module})

    # -- explore and follow
    def explored(self, tlc, dump):
        gen, distinct, text = tlc.wait()
        log("explored %d states (%s)" % (distinct, tlc.module))
        self.cov["states"] += distinct
        self.cov["transitions"] += gen
        out = os.path.join(self.work, tlc.module + ".wrong")
        sub = "mc" if tlc.module == "ConvMC" else "follow"
        s = self.run_harness([sub, self.prop, dump, out], "replay of explored states", out + ".current")
        os.remove(dump)
        if s is None:
            return
        if s["states"] < (distinct if sub == "mc" else 1):
            raise Failure("%d states were explored but %d written out" % (distinct, s["states"]))
        log("replayed %d %s with %d outcomes: %d differ" % (s["states"], "states" if sub == "mc" else "sessions", s["outcomes"], s["wrong"]))
        self.cov["traces_validated_against_impl"] += s["states"]
        self.cov["replayed"] = dict(self.cov.get("replayed", {}), **{tlc.module: {k: s[k] for k in ("states", "outcomes", "ok", "errors")}})
        if s.get("sample") and len(json.dumps(s["sample"])) < SAMPLE_LIMIT:
            self.cov["samples"].append({"explored and replayed": s["sample"]})
        if s["wrong"]:
            for l in lines(out)[:10]:
                case = json.loads(l)
                self.violation("the code differs from the specification: %s instead of %s"
                               % (json.dumps(case["evs"][-1:])[:500], json.dumps(case.get("expected"))[:500]), {"case": case})

    def run(self):
        mcs = []
        try:
            for module, props in (("ConvMC", CONV_MC), ("SessMC", SESS_MC)):
                if self.prop in props:
                    dump = os.path.join(self.work, module + ".dump")
                    mcs.append((Tlc(self.work, module, PROP=self.prop, TIER=self.tier, DUMP=dump,
                                    mem="12g" if self.tier == "thorough" else "4g"), dump))
            try:
                self.harness, complaint = build()
            except NotDerived as e:
                if self.prop not in DERIVE:
                    raise
                self.violation("derived targets do not compile", {"compiler": str(e)[-4000:]})
                return self.done()
            except Unsupported as e:
                if not e.of(self.prop):
                    raise
                self.violation("cannot be decoded into: %s" % ", ".join(e.of(self.prop))[:500], {"compiler": str(e)[-4000:]})
                return self.done()
            log("built")
            if complaint:
                if self.prop in DERIVE:
                    self.violation("derived targets with less usual attributes do not compile", {"compiler": complaint[-4000:]})
                else:
                    log("without the less usual derived targets, which do not compile")
            world = json.loads(subprocess.run([self.harness, "world"], stdout=subprocess.PIPE, check=True).stdout)
            have = json.load(open(WORLD))
            n = len(world["targets"])
            if world["names"] != have["names"] or world["targets"] != have["targets"][:n] or (not complaint and n != len(have["targets"])):
                raise Failure("spec/world.json is not what the harness has")
            self.observe()
            for tlc, dump in mcs:
                self.explored(tlc, dump)
        finally:
            for tlc, _ in mcs:
                tlc.stop()
        return self.done()

    def done(self):
        if not self.cov["samples"]:
            self.cov["samples"].append("none short enough to show")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": ["the specification in spec/ says what the property demands, within the bounds of the worlds explored",
                              "what the harness logs is what the library did"],
              "wall_s": round(time.time() - T0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            log("%s does NOT hold: %d violations" % (self.prop, len(self.violations)))
            return 1
        log("%s holds on everything explored" % self.prop)
        return 0


def replay(path):
    d = json.load(open(path))
    print("property", d["property"], "-", d["what"][:2000])
    case = d.get("case")
    if not case:
        print(d.get("compiler") or d.get("stderr") or "nothing to run")
        return 1
    c = Check.__new__(Check)
    c.prop, c.tier = d["property"], "quick"
    c.work = os.path.join(VERIF, ".work", "replay")
    shutil.rmtree(c.work, ignore_errors=True)
    os.makedirs(c.work)
    c.replays = c.work
    c.violations = []
    c.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    c.harness, _ = build()
    inp, out = os.path.join(c.work, "in"), os.path.join(c.work, "out")
    with open(inp, "w") as f:
        f.write(json.dumps(case) + "\n")
    s = c.run_harness(["replay", inp, out], "replay", None)
    if s is not None:
        for ext, module in ((".conv", "ConvTrace"), (".sess", "SessTrace")):
            if os.path.getsize(out + ext) > 0:
                for l in lines(out + ext):
                    print(l[:5000])
                c.validate(out + ext, module)
    print("reproduced" if c.violations else "not reproduced: the specification accepts what the code does now")
    return 1 if c.violations else 0


def main(argv):
    try:
        if argv[:1] == ["build"]:
            build()
            return 0
        if argv[:1] == ["replay"]:
            return replay(argv[1])
        if not argv or argv[0] not in ALL:
            print(__doc__)
            return 2
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        return Check(argv[0], tier, int(os.environ.get("VERIF_SEED", "1"))).run()
    except Failure as e:
        print("ERROR:", e, flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
