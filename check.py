#!/usr/bin/env python3
"""Decides the properties of /verif/properties.jsonl for the velato in /repo.

  check.py setup                 build the engine and the harness
  check.py run C07 [--tier quick|thorough]
  check.py replay FILE           run one recorded input against the real code

Every run rebuilds the engine if needed, compiles /repo's current sources together with the
harnesses into LLVM IR and into a native program, executes the property's harnesses symbolically
(velsym), replays every counterexample on the native program and reports those that fail there.
"""
import fcntl, glob, json, os, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
TGT = os.path.join(ROOT, "target")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
ENGINE = os.path.join(TGT, "engine/release/velsym")
NATIVE = os.path.join(TGT, "h/release/harness")


def fail(msg):
    print("check error:", msg, flush=True)
    sys.exit(2)


def sh(cmd, cwd, what, **env):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        fail(f"{what} failed")
    return p.stdout


def build(features=""):
    """Engine, native harness and LLVM IR of harness + velato from the current sources."""
    global NATIVE
    d = "hv" if features else "h"
    NATIVE = os.path.join(TGT, d, "release/harness")
    os.makedirs(TGT, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(TGT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        eng = subprocess.Popen(
            ["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", "engine/Cargo.toml"],
            cwd=ROOT, env=dict(ENV, CARGO_TARGET_DIR=os.path.join(TGT, "engine")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        shim = os.path.join(TGT, "shim.o")
        sh(["gcc", "-O1", "-c", "harness/shim.c", "-o", shim], ROOT, "compiling shim.c")
        for f in glob.glob(os.path.join(TGT, d, "release/deps/harness-*")):
            os.remove(f)
        sh(["cargo", "rustc", "--release", "--offline", *(["--features", features] if features else []), "--", "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "link-arg=" + shim],
           os.path.join(ROOT, "harness"), "compiling the harnesses with /repo", RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=os.path.join(TGT, d))
        out, _ = eng.communicate()
        if eng.returncode:
            sys.stdout.write(out[-4000:])
            fail("building the engine failed")
        ll = glob.glob(os.path.join(TGT, d, "release/deps/harness-*.ll"))
        if len(ll) != 1:
            fail(f"expected one IR file, found {ll}")
    return ll[0], time.time() - t0


def native(entry, inputs, timeout=30):
    """Runs one entry on concrete inputs in the real code: (failed, description)."""
    d = os.path.join(TGT, "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"in-{os.getpid()}.txt")
    with open(f, "w") as o:
        for k, v in inputs.items():
            o.write(f"{k} {v!r}\n")
    try:
        # the memory limit keeps runaway allocations from taking the sandbox down
        p = subprocess.run(["bash", "-c", 'ulimit -v 8000000; exec "$@"', "x", NATIVE, entry, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, f"does not end within {timeout} s"
    finally:
        os.remove(f)
    if p.returncode == 0:
        return False, "ok"
    if p.returncode == 4:
        return False, "outside the assumptions"
    txt = [l for l in p.stdout.strip().splitlines() if l.strip()]
    pick = [l for l in txt if l.startswith("ASSERT") or "panicked" in l or "overflow" in l]
    i = txt.index(pick[0]) if pick else len(txt) - 1
    return True, f"exit {p.returncode}: " + " ".join(txt[i:i + 2])[:300]


def validate(samples):
    """Runs sampled paths natively and compares what was observed with the engine's values. Returns the number
    that agree, of values, of those that differ, and of those on which the real code fails."""
    bad, failed, values, i, hung = [], [], 0, 0, 0
    while i < len(samples) and len(bad) < 20 and hung < 2:
        req = "".join(f"run {e} {len(s['inputs'])}\n" + "".join(f"{k} {v!r}\n" for k, v in s["inputs"].items()) for e, s in samples[i:])
        try:
            p = subprocess.run(["bash", "-c", 'ulimit -v 8000000; exec "$@"', "x", NATIVE, "batch"], input=req, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=60)
            out = p.stdout
        except subprocess.TimeoutExpired as e:
            hung += 1
            out = (e.stdout or b"").decode(errors="replace")
        cur = []
        for l in out.splitlines():
            if l.startswith("O "):
                cur.append(struct.unpack(">d", bytes.fromhex(l[2:]))[0])
            elif l == "end":
                e, s = samples[i]
                i += 1
                want, got, cur = s["obs"], cur, []
                if len(got) != len(want):
                    bad.append((e, s["inputs"], "length", len(want), len(got)))
                    continue
                values += len(got)
                for a, b in zip(got, want):
                    b = float("nan") if b is None else float(b)
                    tol = (1e-5 if s["hinted"] else 1e-9) * max(1.0, abs(b))
                    if not (abs(a - b) <= tol or a == b or (a != a and b != b)):
                        bad.append((e, s["inputs"], "value", b, a))
                        break
        if i < len(samples):
            # the process ended in this one
            e, s = samples[i]
            i += 1
            bad.append((e, s["inputs"], "ended", len(s["obs"]), len(cur)))
            fails, how = native(e, s["inputs"])
            if fails:
                failed.append((e, s["inputs"], how))
    return i - len(bad), values, bad, failed


def known_findings():
    f = os.path.join(ROOT, "known_findings.jsonl")
    if not os.path.exists(f):
        return []
    return [json.loads(l) for l in open(f) if l.startswith("{")]


def run(prop, tier):
    from checks import CHECKS, LEVEL
    t0 = time.time()
    c = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    entries = c["quick"] + (c.get("thorough", []) if tier == "thorough" else [])
    ll, tb = build(c.get("features", ""))
    out = os.path.join(TGT, f"out-{prop}-{os.getpid()}.json")
    cmd = [ENGINE, ll, "--out", out, "--threads", str(os.cpu_count() or 4), "--seed", str(seed), "--samples", "40" if tier == "quick" else "120"]
    total = 420 if tier == "quick" else 6 * 3600
    lim = min(60 if tier == "quick" else 1800, total / len(entries))
    lims = c.get("time", {}) if tier == "quick" else {}
    p = subprocess.run(cmd + [f"{e}={lims.get(e, lim):g}" for e in entries], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode or not os.path.exists(out):
        sys.stdout.write(p.stderr[-3000:])
        fail("the engine failed")
    res = json.load(open(out))
    os.remove(out)
    # counterexamples count when the real code fails on them
    rdir = os.path.join(ROOT, "work", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, f"{prop}-*.json")):
        os.remove(f)
    findings = [k for k in known_findings() if k["property"] == prop]
    confirmed, spurious, known = [], [], []


    def confirm(entry, msg, inputs, how):
        k = [k for k in findings if k["entry"] == entry and all(inputs.get(a) == b for a, b in k["inputs"].items())]
        if k:
            known.append(k[0])
            return
        f = os.path.join(rdir, f"{prop}-{len(confirmed) + 1}.json")
        json.dump(dict(property=prop, entry=entry, message=msg, inputs=inputs, native=how, how=f"python3 check.py replay {f}"), open(f, "w"), indent=1)
        confirmed.append((f, entry, msg, how))

    for r in res:
        for v in r["violations"]:
            if confirmed and time.time() - t0 > (550 if tier == "quick" else 1e9):
                break
            bad, how = native(r["entry"], v["inputs"])
            if bad:
                confirm(r["entry"], v["msg"], v["inputs"], how)
            else:
                spurious.append(dict(entry=r["entry"], msg=v["msg"], inputs=v["inputs"], native=how))
    for k in findings:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    samples = [(r["entry"], s) for r in res for s in r["samples"]]
    ok, nval, badtr, failed = validate(samples)
    # inputs the solver chose for a path on which the real code differs from its encoding, and fails
    for e, i, how in failed:
        confirm(e, "the real code fails on the inputs of this path", i, how)
    tot = lambda k: sum(r[k] for r in res)
    complete = all(r["exhausted"] and not r["flips_unknown"] and not r["checks_unknown"] and not r["checks_unconfirmed"] and not r["engine_errors"] and not r["trouble"] and not r["diverged"] and not r["near_sat"] for r in res) and not badtr and not spurious
    covers = {}
    for r in res:
        for k, v in r["covers"].items():
            covers[k] = covers.get(k, 0) + v
    fns = sorted({f for r in res for f in r["functions"]})
    cov = dict(
        states=tot("paths"),
        transitions=tot("decisions"),
        traces_validated_against_impl=ok,
        samples=[dict(entry=e, inputs=s["inputs"], observed=len(s["obs"])) for e, s in samples[:6]],
        exhaustive=complete,
        rule="states: symbolic paths (equivalence classes of inputs that take the same branches) of the compiled real code; transitions: branch decisions on symbolic values along them",
        entries=[{k: r[k] for k in ("entry", "paths", "infeasible", "exhausted", "left", "time", "close_total", "checks_solver", "checks_unsat", "checks_unknown", "checks_unconfirmed", "flips", "flips_unsat", "flips_unknown", "queries", "q_nonlinear", "solver_time", "diverged", "edges", "slivers", "trouble", "engine_errors")} for r in res],
        bounds={r["entry"]: r["inputs"] for r in res},
        assertions_on_values=tot("close_total"),
        assertions_decided_by_interval=tot("close_interval"),
        assertions_of_those_confirmed_by_solver=tot("near_unsat"),
        queries_for_that=tot("near_queries"), of_these_refuted=tot("near_sat"),
        assertions_concrete=tot("close_concrete"),
        assertions_decided_by_solver=tot("checks_solver"),
        queries=tot("queries"), queries_unsat=tot("q_unsat"), queries_sat=tot("q_sat"), queries_unknown=tot("q_unknown"),
        solver="z3 5.3.2 (z3-new)", solver_time_s=round(tot("solver_time"), 2),
        branch_sides_refuted=tot("flips_unsat"),
        covers=covers,
        functions_encoded=fns, functions_executed=max(r["functions_executed"] for r in res),
        values_compared_with_native=nval,
        traces_that_differ=[str(b)[:300] for b in badtr[:5]],
        spurious=spurious[:5],
        bound_note=c["bounds"], outside=c.get("outside", ""),
        build_s=round(tb, 1),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=cov,
              assumptions=ASSUMPTIONS + c.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {tot('paths')} paths, {tot('close_total')} value assertions, {tot('queries')} queries ({tot('q_unknown')} unknown), solver {tot('solver_time'):.1f} s, "
          f"{ok}/{len(samples)} traces agree with the native run, {'complete within bounds' if complete else 'not complete'}, {time.time() - t0:.0f} s")
    for r in res:
        if not r["exhausted"] or r["trouble"] or r["engine_errors"]:
            print(f"  {r['entry']}: left {r['left']} trouble {r['trouble']} errors {r['engine_errors']}")
    for s in spurious[:5]:
        print("  not reproduced by the real code:", s["entry"], s["msg"])
    for b in badtr[:5]:
        print("  trace differs:", str(b)[:300])
    if confirmed:
        for f, e, m, how in confirmed[:8]:
            print(f"  {e}: {m}  [{how}]")
        print(f"VIOLATION property={prop} replay={confirmed[0][0]}")
        sys.exit(1)
    missing = [k for k in c.get("covers", []) if not covers.get(k)]
    if missing:
        fail(f"never reached: {missing}")
    if any(r["paths"] == 0 for r in res):
        fail("an entry explored nothing")
    sys.exit(0)


ASSUMPTIONS = [
    "rustc, LLVM, the linker and the CPU agree on what the emitted IR means (the native replay of sampled paths compares)",
    "z3's unsat answers are right",
    "symbolic numbers are dyadic within the stated ranges; their double and single precision arithmetic is tracked as exact polynomials with a rigorous rounding bound",
    "a side of a branch counts as unreachable when its inputs only exist within the rounding error of that comparison and the run on such inputs takes the other side (edges)",
    "the path in an uninterpreted value's branch that no run reached is not covered (diverged); the check is then not complete",
    "where no root is named, the answer of kurbo's cubic solver is any number in [0,1], the same for the same coefficients",
    "where a harness names the root (root_hint), kurbo's cubic solver is taken to return that root, and the other real roots, in its order, which are only known to lie outside [0,1]; sampled paths are compared with the native solver",
    "sine, cosine, tangent and powers are uninterpreted apart from their ranges and sin^2+cos^2=1",
    "inputs outside the stated bounds, and documents of other structure, are not covered",
]

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        print("built in %.0f and %.0f s" % (build()[1], build("vello")[1]))
    elif a[:1] == ["run"]:
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        run(a[1], tier)
    elif a[:1] == ["replay"]:
        r = json.load(open(a[1]))
        from checks import CHECKS
        build(CHECKS[r["property"]].get("features", ""))
        bad, how = native(r["entry"], r["inputs"])
        print(r["entry"], how)
        sys.exit(1 if bad else 0)
    else:
        print(__doc__)
        sys.exit(2)
