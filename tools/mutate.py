#!/usr/bin/env python3
"""mutate.py LIST.py [IDs]: runs the quick check of a copy of /verif against mutated copies of the code.
The copy of the repository is /tmp/mrepo, that of /verif /tmp/mv (VP_MUT is appended); results in /tmp/mut.<list>.log"""
import os, re, shutil, subprocess, sys, time
lst = sys.argv[1]
only = set(sys.argv[2:])
ns = {}
if lst == "seeded":  # the planted bugs, in copies (tools/catch.sh runs them on /repo itself)
    import json
    ns["M"] = [(d, json.load(open(f"/verif/seeded/{d}/meta.json"))["property"], None, None, None) for d in sorted(os.listdir("/verif/seeded"))]
    lst = "seeded.py"
else:
    exec(open(lst).read(), ns)
X = os.environ.get("VP_MUT", "")
R, V, T = "/tmp/mrepo" + X, "/tmp/mv" + X, "/tmp/mvt" + X
if not os.path.isdir(R):
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
subprocess.run(f"git -C {R} fetch -q /repo HEAD && git -C {R} checkout -qf FETCH_HEAD", shell=True, check=True)
os.makedirs(V, exist_ok=True)
subprocess.run(f"for d in bin harness java shims specs KNOWN_FINDINGS.txt; do cp -a /verif/$d {V}/; done", shell=True, check=True)
log = open(f"/tmp/mut.{os.path.basename(lst)[:-3]}.log", "a")
for id_, prop, f, old, new in ns["M"]:
    if only and id_ not in only:
        continue
    if f is None:
        subprocess.run(f"git -C {R} checkout -q -- . && git -C {R} apply /verif/seeded/{id_}/patch.diff", shell=True, check=True)
    p = None if f is None else f"{R}/{f}" if f.startswith("circuit-std-rs/") else f"{R}/expander_compiler/src/{f}"
    if p:
        s = open(p).read()
        if s.count(old) != 1:
            print(id_, "TEXT", s.count(old), file=log, flush=True)
            continue
        open(p, "w").write(s.replace(old, new))
    t = time.time()
    e = dict(os.environ, VP_REPO=R, VP_TARGET=T, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    res = []
    for pr in prop.split("+"):
        r = subprocess.run(["python3", V + "/bin/check.py", pr, "quick"], env=e, capture_output=True, text=True, errors="replace")
        m = re.search(r"^(.*scenario.*)$", r.stdout, re.M)
        caught = r.returncode == 1
        res.append(f"{pr} exit {r.returncode} {m.group(1)[:110] if m else r.stdout.strip().splitlines()[-1][:110] if r.stdout.strip() else ''}")
        if caught:
            break
    print(f"{id_:14} {time.time()-t:5.0f}s {' | '.join(res)}", file=log, flush=True)
    if p:
        open(p, "w").write(s)
    else:
        subprocess.run(f"git -C {R} checkout -q -- .", shell=True)
