#!/usr/bin/env python3
"""check.py PROPERTY TIER: builds the driver from /repo, runs it, lets TLC judge what it recorded.

Exit 0: held on everything explored; 1: a VIOLATION line was printed; 2: no answer.
See /verif/DESIGN.md for what every part does."""
import glob, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from parts import PARTS  # noqa: E402

PROP, TIER = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
WORK = os.path.join(V, "work", f"{PROP}.{TIER}")
TARGET = os.environ.get("VP_TARGET", os.path.join(V, "target"))
REPLAY = os.path.join(V, "work", "replay")
JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
T0 = time.time()
PIECE = 80_000_000
LIMIT = 850 if TIER == "quick" else 4 * 3600


def die(msg):
    print(f"NO ANSWER: {msg}", flush=True)
    sys.exit(2)


def log(msg):
    print(f"[{time.time() - T0:6.1f}s] {msg}", flush=True)


def sh(cmd, timeout, env=None, **kw):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, timeout=timeout, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


BUILT = {}


def build(feature, crate="core", driver=""):
    """The driver, from /repo's current sources (of the core crate, only the driver that is needed)."""
    feature = " ".join(x for x in (feature, "d_" + driver if crate == "core" else "") if x)
    key = crate + feature.replace(" ", "_")
    if key in BUILT:
        return BUILT[key]
    name = {"core": "vp", "utils": "vputils", "std": "vpstd", "go": "vpgo"}[crate]
    cmd = ["cargo", "build", "--offline", "--bin", name] + (["--features", feature] if feature else []) + (["--no-default-features"] if crate == "core" else [])
    r = sh(cmd, 880, {"RUSTUP_TOOLCHAIN": "nightly-2025-05-17", "CARGO_NET_OFFLINE": "true",
                      "CARGO_TARGET_DIR": TARGET}, cwd=os.path.join(V, "harness", crate))
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("the driver does not build")
    exe = os.path.join(WORK, "drv." + key)
    shutil.copy(os.path.join(TARGET, "debug", name), exe)
    BUILT[key] = exe
    return exe


def go_side():
    """The Go half of L02 and L03, from /repo's current sources."""
    d, exe = os.path.join(WORK, "gosrc"), os.path.join(WORK, "gofront")
    shutil.rmtree(d, ignore_errors=True)
    r = sh(["bash", os.path.join(V, "tools", "gobuild.sh"), os.environ.get("VP_REPO", "/repo"), d, exe], 600)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("the Go side does not build")
    return exe


def classes():
    d = os.path.join(V, "work", "cls")
    os.makedirs(d, exist_ok=True)
    src = sorted(glob.glob(os.path.join(V, "java/*.java")))
    r = sh(["javac", "-cp", JARS[0], "-d", d] + src, 120)
    if r.returncode != 0:
        die("javac: " + r.stdout[-2000:])
    return d


def tlc(cls, spec, cfg, name, env, timeout, workers=8, extra=(), soft=False):
    meta = os.path.join(WORK, "st." + name)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx20g", "-cp", ":".join([cls] + JARS), "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-config", cfg, *extra, spec]
    out = os.path.join(WORK, name + ".tlc")
    e = dict(os.environ)
    e.update(env)
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=os.path.join(V, "specs"), env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            if not soft:
                die(f"TLC did not finish {name} in {timeout} s")
    shutil.rmtree(meta, ignore_errors=True)
    text = open(out, errors="replace").read()
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", text, re.M)
    return text, (int(m[-1][0]), int(m[-1][1]), int(m[-1][2])) if m else None


def crashed(exe, args, out, rc):
    """the driver died: which scenario kills it?"""
    try:
        ids = [int(x) for x in open(out + ".at").read().split()]
    except OSError:
        ids = []
    for i in ids:
        try:
            r = sh([exe] + args + [out + ".one", str(i)], 200)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode < 0 or r.returncode in (134, 137, 139):
            return i
    return None


class Run:
    def __init__(self):
        self.bad = []      # (part, scenario id, stage, reasons, line)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}

    def part(self, part, cls):
        name = part["name"]
        lines = []
        trace = os.path.join(WORK, name + ".nd")
        if part.get("gen"):
            # the model generates behaviours; the driver replays them
            g = part["gen"]
            text, st = tlc(cls, g["spec"], g["cfg"][TIER] if isinstance(g["cfg"], dict) else g["cfg"], name + ".gen",
                               {"VP_OUT": trace + ".gen", "VP_SEED": str(SEED), "VP_TIER": TIER}, 800,
                               g.get("workers", 8), g.get("extra", {}).get(TIER, []) if isinstance(g.get("extra"), dict) else g.get("extra", []))
            n = 0
            with open(trace + ".gen", "w") as f:
                for m in re.finditer(r'^<<"GEN", "(.*)">>$', text, re.M):
                    f.write(m.group(1).replace("<<", "[").replace(">>", "]").replace('\\"', '"') + "\n")
                    n += 1
            if not st or st[2] != 0 or "Error:" in text or n == 0:
                print(text[-1500:])
                die(f"{name}: the model did not generate behaviours")
            self.states += st[1]
            self.transitions += st[0]
            log(f"{name}: model generated {n} behaviours from {st[1]} states")
        if part.get("driver"):
            exe = build(part.get("feature", {}).get(TIER, ""), part.get("crate", "core"), part["driver"][TIER][0])
            log(f"{name}: driver built")
            if part.get("go"):
                os.environ["VP_GO_EXE"] = go_side()
            args = [str(a).replace("@SEED", str(SEED)).replace("@GEN", trace + ".gen") for a in part["driver"][TIER]]
            try:
                r = sh([exe] + args + [trace], LIMIT)
            except subprocess.TimeoutExpired:
                die(f"{name}: the driver did not finish")
            if r.returncode != 0:
                i = crashed(exe, args, trace, r.returncode)
                if i is None:
                    print(r.stdout[-3000:])
                    die(f"{name}: the driver failed with {r.returncode}")
                self.bad.append((name, i, "run", "the code kills its process (stack overflow or abort)", {"driver": args, "id": i}))
                return
            summary = json.load(open(trace + ".sum")) if os.path.exists(trace + ".sum") else {}
            lines = [x for x in open(trace).read().split("\n") if x]
            log(f"{name}: driver recorded {len(lines)} behaviours {json.dumps(summary)}")
            keep = []
            for x in lines:
                if x.startswith('{"hang"') or '"hang":true' in x[:80]:
                    o = json.loads(x)
                    self.bad.append((name, o["id"], "run", "does not terminate", o))
                elif '"panic":' in x[:400] and "panic" in json.loads(x) and "stages" not in json.loads(x):
                    o = json.loads(x)
                    self.bad.append((name, o["id"], "run", "panics: " + str(o["panic"]), o))
                else:
                    keep.append(x)
            lines = keep
            open(trace, "w").write("".join(x + "\n" for x in lines))
            self.extra[name] = summary
        if not lines:
            if self.bad:
                return
            die(f"{name}: nothing recorded")
        # TLC keeps the whole trace in memory: hand it over in pieces
        pieces, size = [[]], 0
        for x in lines:
            if size > PIECE:
                pieces.append([])
                size = 0
            pieces[-1].append(x)
            size += len(x)
        found = set()
        for k, piece in enumerate(pieces):
            byid = {}
            for x in piece:
                o = json.loads(x)
                byid[o["id"]] = o
            with open(trace, "w") as f:
                f.write("".join(x + "\n" for x in piece))
            listed = [k for k in known() if k[0] == PROP]

            # without the invariant everything is explored, for the complete list of violations
            def everything():
                cfg = os.path.join(WORK, name + ".all.cfg")
                with open(cfg, "w") as f:
                    f.write("".join(x for x in open(os.path.join(V, "specs", part["cfg"])) if not x.startswith("INVARIANT")))
                return cfg
            text, st = tlc(cls, part["spec"], everything() if listed else part["cfg"], name, {"VP_TRACE": trace}, LIMIT, extra=part.get("extra", []))
            if '"BAD"' in text and TIER != "quick" and not listed:
                text, st = tlc(cls, part["spec"], everything(), name, {"VP_TRACE": trace}, 300, extra=part.get("extra", []), soft=True)
            for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)",\s*(.*?)\s*>>$', text, re.M | re.S):
                found.add((int(m.group(1)), m.group(2), " ".join(m.group(3).split())))
            new = False
            for i, stage, why in sorted(found):
                b = (name, i, stage, why, byid.get(i))
                self.bad.append(b)
                new = new or not listed_as(listed, b)
            if st is None or st[2] != 0:
                print(text[-4000:])
                if not new:
                    die(f"{name}: TLC failed")
                return
            want = sum(part["states"](o) for o in byid.values())
            if not new and (st[1] != want or "Error:" in text):
                print(text[-4000:])
                die(f"{name}: TLC saw {st[1]} states, {want} expected")
            self.states += st[1]
            self.transitions += st[1] - len(byid)
            self.traces += len(byid)
            log(f"{name}: TLC checked {st[1]} states of {len(byid)} behaviours, {len(found)} bad")
            if k == 0:
                for o in list(byid.values())[:2]:
                    t = json.dumps(o)
                    self.samples.append(json.loads(t) if len(t) < 3000 else t[:3000])
            if new:
                return
            found = set()

    def model(self, part, cls):
        """a pure model: no code involved"""
        name = part["name"]
        cfg = part["cfg"][TIER] if isinstance(part["cfg"], dict) else part["cfg"]
        text, st = tlc(cls, part["spec"], cfg, name, {}, LIMIT, extra=part.get("extra", []))
        if "Error:" in text or not st or st[2] != 0:
            print(text[-4000:])
            die(f"{name}: the model does not satisfy its own invariants")
        self.states += st[1]
        self.transitions += st[0]
        log(f"{name}: model checked, {st[1]} states")


def known():
    """[(property, regex)] of the findings that are recorded rather than repaired"""
    res = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"KNOWN-FINDING: property=(\S+) match=/(.*?)/ (.*)", line.strip())
        if m:
            res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res


def listed_as(kn, b):
    text = f"{b[0]}: {b[2]}: {b[3]}: {json.dumps((b[4] or {}).get('key', ''))}"
    return next((k for k in kn if k[1].search(text)), None)


def main():
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    os.makedirs(REPLAY, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cls = classes()
    run = Run()
    parts = PARTS[PROP]
    for part in parts:
        if part.get("model_only"):
            run.model(part, cls)
        else:
            run.part(part, cls)
    new, old = [], {}
    kn = [k for k in known() if k[0] == PROP]
    for b in run.bad:
        k = listed_as(kn, b)
        if k:
            old.setdefault(k[2], []).append(b)
        else:
            new.append(b)
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {"states": run.states, "transitions": run.transitions,
                     "traces_validated_against_impl": run.traces, "samples": run.samples[:4], "drivers": run.extra},
        "assumptions": sorted({a for p in parts for a in p.get("assumptions", [])}),
        "wall_s": round(time.time() - T0, 1), "violations": len(new),
    }
    with open(os.path.join(V, "evidence", PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what, bs in old.items():
        print(f"KNOWN-FINDING: property={PROP} {what} ({len(bs)} behaviours)")
    for i, (name, sid, stage, why, line) in enumerate(new[:10]):
        path = os.path.join(REPLAY, f"{PROP}.{name}.{sid}.{i}.json")
        part = next(p for p in parts if p["name"] == name)
        with open(path, "w") as f:
            json.dump({"property": PROP, "part": name, "scenario": sid, "stage": stage, "reasons": why,
                       "driver": [str(a).replace("@SEED", str(SEED)) for a in part.get("driver", {}).get(TIER, [])] + ["OUT", sid],
                       "recorded": line}, f, indent=1)
        print(f"{name} scenario {sid}, {stage}: {why}")
        print(f"VIOLATION property={PROP} replay={path}")
    if os.path.isdir(WORK) and not new:
        shutil.rmtree(WORK, ignore_errors=True)
    log(f"{PROP} {TIER}: {'VIOLATED' if new else 'held'}")
    sys.exit(1 if new else 0)


main()
