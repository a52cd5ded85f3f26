#!/usr/bin/env python3
"""Plants bugs: builds /verif/seeded/<id> from specs.py, in a scratch copy of the repository."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
import specs
W = "/tmp/seedrepo"
def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env={**os.environ, **(env or {})})
    return p.returncode, p.stdout
def clean():
    sh("git checkout -q -- .", W)
def apply(s):
    for f, a, b in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
KP = 'kurbo = "0.13.0"\npeniko = "0.6.0"\n'
E = dict(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
def demo(d, env=None):
    # like demo.sh, with build output that is kept between runs
    v = "vello" in open(os.path.join(d, "demo.sh")).read()
    w = "/tmp/seeddemo" + "v" * v
    os.makedirs(w + "/src", exist_ok=True)
    for f, t in (("main.rs", "src/main.rs"), ("case.json", "src/case.json"), ("Cargo.lock", "Cargo.lock")):
        shutil.copy(os.path.join(d, f), os.path.join(w, t))
    open(w + "/Cargo.toml", "w").write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[dependencies]\nvelato = {{ path = "{W}", default-features = false{", features = ['vello']" if v else ""} }}\n{"" if v else KP}serde_json = "1.0.149"\n')
    rc, o = sh("cargo build --offline --quiet 2>&1 && (ulimit -v 8000000; timeout 60 target/debug/demo)", w, {**E, **(env or {})})
    return rc, o
def make(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    v = "_vello" if s.get("demo") == "vello" else ""
    m = "_" + s["demo"] if s.get("demo") else ""
    for f, t in ((f"main{m}.rs", "main.rs"), (f"Cargo{v}.lock", "Cargo.lock"), (f"demo{v}.sh", "demo.sh")):
        shutil.copy(os.path.join(HERE, f), os.path.join(d, t))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    case = dict(docs=s["docs"], steps=s["steps"], reuse=s.get("reuse", False), expected=[])
    json.dump(case, open(os.path.join(d, "case.json"), "w"))
    rc, o = demo(d, {"PRINT": "1"})
    if rc: return print(s["id"], "PRINT FAILED", o[-1500:])
    case["expected"] = [json.loads(l) for l in o.splitlines() if l.startswith("[")]
    assert len(case["expected"]) == len(case["steps"])
    json.dump(case, open(os.path.join(d, "case.json"), "w"), indent=1)
    rc0, o0 = demo(d)
    apply(s)
    _, diff = sh("git diff", W)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    rc1, o1 = demo(d)
    rct, ot = sh("cargo test --offline --quiet --lib --tests -p velato 2>&1 | tail -5", W, E) if "--test" in sys.argv else (0, "")
    ok = "test result: FAILED" not in ot and "error" not in ot
    clean()
    print(s["id"], "clean", rc0, "patched", rc1, "tests", "ok" if ok else ot, "" if rc0 == 0 and rc1 not in (0, 101, 124) or rc1 in (124, 134) else o1[-1200:] if "-v" in sys.argv or rc1 == 0 else "(panics)" if rc1 == 101 and "panicked" in o1 else o1[-1200:])
if not os.path.exists(W):
    sh(f"cp -a /repo {W}")
sh("git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", W)
clean()
want = [a for a in sys.argv[1:] if not a.startswith("-")]
for s in specs.SEEDS:
    if not want or s["id"] in want:
        make(s)
