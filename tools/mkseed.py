"""mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, main, kind)];
writes /verif/seeded/<id>/{patch.diff,meta.json,main.rs,demo.sh}."""
import json, os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
S = "/tmp/seedwork"
subprocess.run(["rm", "-rf", "/tmp/seedwork"]); subprocess.run(["git", "clone", "-q", "/repo", S], check=True)
for x in ns["SEEDS"]:
    if only and x["id"] not in only: continue
    d = f"/verif/seeded/{x['id']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in x["edits"]:
        p = f"{S}/expander_compiler/src/{f}" if not f.startswith("/") else S + f
        s = open(p).read()
        assert s.count(old) == 1, (x["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": x["prop"], "needs": x["needs"], "what_it_breaks": x["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/main.rs", "w").write(x["main"])
    k = x.get("kind", "core")
    subprocess.run(["bash", "/verif/tools/" + {"utils": "mkdemo_utils.sh", "std": "mkdemo_std.sh", "go": "mkdemo_go.sh", "lib": "mkdemo_lib.sh"}.get(k, "mkdemo.sh"), x["id"]], check=True)
    if k == "utils" and x.get("serdes"):
        open(f"{d}/serdes.rs", "w").write("""extern crate proc_macro;
use proc_macro::TokenStream;
#[proc_macro_derive(ExpSerde)]
pub fn d(_: TokenStream) -> TokenStream { TokenStream::new() }
""")
subprocess.run(["rm", "-rf", "/tmp/seedwork"])
