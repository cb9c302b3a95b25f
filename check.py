#!/usr/bin/env python3
"""check.py <property> | setup      -- see DESIGN.md

Builds the harness against /repo's working tree, explores the scenarios of the property, replays
counterexamples, and writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, threading, time, tomllib

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustlit

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
# (a copy of the repository can be checked without disturbing anything)
OUT = HERE if REPO == "/repo" else "/tmp/verif-of" + REPO.replace("/", "-")
BUILD = os.path.join(OUT, ".build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
JOBS = os.cpu_count() or 4

DEFAULT = ["parallel", "no-position", "sqrt-dist2", "no-index"]
# build variants: feature set, and whether fnntw is compiled against the scheduling shims
VARIANTS = {
    "default": (DEFAULT, None),
    "sched": (DEFAULT, "sched"),
    "plain": (["parallel"], None),
    "squared": (["parallel", "no-position"], None),
    "nodes": (DEFAULT, "nodes"),
    "small": (DEFAULT, "small"),
    "distance": (DEFAULT, "distance"),
    "index": (["parallel", "no-position", "sqrt-dist2"], None),
    "serial": (["sqrt-dist2"], None),
    "py": ([], "py"),
}
# property -> variants its scenarios run in
PLAN = {}
# seconds of exploration per property
BUDGET = {}
exec(open(os.path.join(HERE, "plan.py")).read())


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
             RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", VERIF_TIER=TIER, VERIF_SEED=str(SEED),
             RAYON_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS"):
        e.pop(k, None)
    return e


def die(msg):
    print("check.py: " + msg, file=sys.stderr)
    sys.exit(2)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def copy_tree(src, dst):
    """Copy sources, leaving unchanged files (and so their build products) alone."""
    seen = set()
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in ("target", ".git", "__pycache__")]
        for f in fs:
            s = os.path.join(d, f)
            t = os.path.join(dst, os.path.relpath(s, src))
            if not os.path.isfile(s) or os.path.getsize(s) > 8 << 20:
                continue
            seen.add(t)
            b = open(s, "rb").read()
            if not os.path.exists(t) or open(t, "rb").read() != b:
                os.makedirs(os.path.dirname(t), exist_ok=True)
                open(t, "wb").write(b)
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.join(d, f) not in seen:
                os.remove(os.path.join(d, f))


def toml_deps(deps):
    out = []
    for k, v in deps.items():
        if isinstance(v, str):
            v = {"version": v}
        if v.get("optional") and k != "rayon":
            continue
        out.append(f"{k} = {{ " + ", ".join(f"{a} = {json.dumps(b)}" for a, b in v.items()) + " }")
    return "\n".join(out)


def sources():
    """/repo's working tree, copied by content so that time stamps cannot hide a change from cargo."""
    dst = os.path.join(BUILD, "repo")
    copy_tree(REPO, dst)
    return dst


def small_sources(root):
    """A copy of /repo's crate in which few points count as many: the number from which the
    approximate median is used, an integer around 100 000, is replaced by 6."""
    global SCALED
    tmp = os.path.join(root, "tmp")
    os.makedirs(root, exist_ok=True)
    shutil.rmtree(tmp, ignore_errors=True)
    copy_tree(REPO, tmp)
    SCALED = 0
    for d, _, fs in os.walk(os.path.join(tmp, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".rs"):
                out = []
                for kind, tok in rustlit.tokens(open(p).read()):
                    m = re.fullmatch(r"([0-9][0-9_]*?)_*((?:[ui](?:8|16|32|64|128|size))?)", tok) if kind == "int" else None
                    if m and 20_000 <= int(m.group(1).replace("_", "")) <= 2_000_000:
                        tok = "6" + m.group(2)
                        SCALED += 1
                    out.append(tok)
                open(p, "w").write("".join(out))
    copy_tree(tmp, os.path.join(root, "repo"))
    shutil.rmtree(tmp)
    return os.path.join(root, "repo")


SCALED = None


def sched_sources(root):
    """A copy of /repo's crate that names the scheduling facade `std` and the shim `rayon`."""
    tmp = os.path.join(root, "tmp")
    os.makedirs(root, exist_ok=True)
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src"), tmp)
    lib = os.path.join(tmp, "lib.rs")
    with open(lib, "a") as f:
        f.write("\nextern crate symstd as std;\n")
    copy_tree(tmp, os.path.join(root, "fnntw", "src"))
    shutil.rmtree(tmp)
    for f in os.listdir(REPO):
        if f.endswith((".md", ".txt")) and os.path.isfile(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), os.path.join(root, "fnntw", f))
    m = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    deps = dict(m.get("dependencies", {}))
    optional = any(k == "rayon" and isinstance(v, dict) and v.get("optional") for k, v in deps.items())
    deps.pop("rayon", None)
    feats = {k: [x for x in v if "/" not in x] for k, v in m.get("features", {}).items() if k != "tcmallocator"}
    ed = m.get("workspace", {}).get("package", {}).get("edition", "2021")
    text = f'[package]\nname = "fnntw"\nversion = "0.0.0"\nedition = "{ed}"\n\n[workspace]\n\n[features]\n'
    for k, v in feats.items():
        text += f"{k} = {json.dumps(v)}\n"
    text += "\n[dependencies]\n" + toml_deps(deps) + "\n"
    text += f'rayon = {{ path = {json.dumps(HERE + "/shims/rayon")}{", optional = true" if optional else ""} }}\n'
    text += f'symstd = {{ path = {json.dumps(HERE + "/shims/symstd")} }}\n'
    write(os.path.join(root, "fnntw", "Cargo.toml"), text)
    return os.path.join(root, "fnntw")


def manifest(root, dep, extra_features=""):
    src = open(os.path.join(HERE, "harness", "Cargo.toml")).read()
    src = src.replace('path = "../engine"', f"path = {json.dumps(HERE + '/engine')}")
    src = src.replace('path = "../shims/vsched"', f"path = {json.dumps(HERE + '/shims/vsched')}")
    src = src.replace('path = "/repo"', f"path = {json.dumps(dep)}")
    src += f"\n[[bin]]\nname = \"harness\"\npath = {json.dumps(HERE + '/harness/src/main.rs')}\n"
    write(os.path.join(root, "Cargo.toml"), src)
    lock = os.path.join(root, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(HERE, "harness", "Cargo.lock"), lock)


def binding_sources(root, fnntw, translate):
    """The Python binding as it is, and with f64 or f32 naming the symbolic scalar."""
    src = os.path.join(REPO, "pyfnntw", "src")
    m = tomllib.load(open(os.path.join(REPO, "pyfnntw", "Cargo.toml"), "rb"))
    ws = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    ed = m.get("package", {}).get("edition", "2021")
    if isinstance(ed, dict):
        ed = ws.get("workspace", {}).get("package", {}).get("edition", "2021")
    stand_in = {"fnntw": fnntw, "pyo3": HERE + "/shims/pyo3", "numpy": HERE + "/shims/numpy", "rayon": HERE + "/shims/rayon"}
    deps = {}
    for k, v in m.get("dependencies", {}).items():
        v = dict(v) if isinstance(v, dict) else {"version": v}
        if k in stand_in:
            v.pop("version", None)
            v["path"] = stand_in[k]
            if k == "numpy" or k == "rayon":
                v.pop("features", None)
        deps[k] = v
    deps["symrt"] = {"path": HERE + "/engine"}
    for name, scalar in (("native", None), ("sym64", "f64"), ("sym32", "f32")):
        tmp = os.path.join(root, "tmp")
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(src, tmp)
        for d, _, fs in os.walk(tmp):
            for f in fs:
                if scalar and f.endswith(".rs"):
                    p = os.path.join(d, f)
                    use = f"#[allow(unused_imports)] use symrt::Sym as {scalar};"
                    text = open(p).read()
                    if translate:
                        text = rustlit.rewrite(text, scalar)
                    text = re.sub(r"^(\s*(?:pub(?:\([^)]*\))?\s+)?mod\s+\w+\s*\{)", lambda x: x.group(1) + " " + use, text, flags=re.M)
                    open(p, "w").write(text + "\n" + use + "\n")
        copy_tree(tmp, os.path.join(root, name, "src"))
        shutil.rmtree(tmp)
        text = f'[package]\nname = "py_{name}"\nversion = "0.0.0"\nedition = "{ed}"\n\n[dependencies]\n'
        for k, v in deps.items():
            text += f"{k} = {{ " + ", ".join(f"{a.replace('_', '-') if a == 'default_features' else a} = {json.dumps(b)}" for a, b in v.items()) + " }\n"
        write(os.path.join(root, name, "Cargo.toml"), text)


def binding_manifest(root, translate):
    fnntw = sched_sources(root + "-src")
    binding_sources(root, fnntw, translate)
    src = open(os.path.join(HERE, "binding", "Cargo.toml")).read()
    src = re.sub(r'path = "\.\./', f'path = "{HERE}/', src).replace('path = "/repo"', f"path = {json.dumps(fnntw)}")
    src += f"\n[[bin]]\nname = \"harness\"\npath = {json.dumps(HERE + '/binding/src/main.rs')}\n"
    write(os.path.join(root, "Cargo.toml"), src)
    lock = os.path.join(root, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists(os.path.join(HERE, "binding", "Cargo.lock")):
        shutil.copy(os.path.join(HERE, "binding", "Cargo.lock"), lock)


def cargo(root, features):
    cmd = ["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(root, "Cargo.toml"), "--features", ",".join(features)]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def keep(made, binary):
    """Replace the binary, even if it is running."""
    shutil.copy2(made, binary + ".new")
    os.replace(binary + ".new", binary)


def build(variant):
    """Returns (binary, note)."""
    feats, special = VARIANTS[variant]
    root = os.path.join(BUILD, variant)
    os.makedirs(root, exist_ok=True)
    note = None
    binary = os.path.join(BUILD, "harness-" + variant)
    if special == "py":
        for translate in (True, False):
            binding_manifest(root, translate)
            ok, out = cargo(root, feats)
            if ok:
                break
        else:
            sys.stderr.write(out[-6000:])
            die("/repo's Python binding does not build against the stand-ins for pyo3 and numpy")
        keep(os.path.join(BUILD, "target", "release", "harness"), binary)
        return binary, None
    if special:
        log = os.path.join(BUILD, special + "-build.log")
        try:
            manifest(root, sched_sources(root + "-src") if special == "sched" else small_sources(root + "-src") if special == "small" else sources())
            ok, out = cargo(root, feats + [special] + (["median"] if special == "small" else []))
            if not ok and special == "small":
                # the selection of a median has another shape: through trees only
                ok, out = cargo(root, feats + [special])
        except Exception as ex:
            ok, out = False, repr(ex)
        if ok:
            if os.path.exists(log):
                os.remove(log)
            keep(os.path.join(BUILD, "target", "release", "harness"), binary)
            return binary, "there is no limit around 100 000 in the sources to be lowered" if special == "small" and not SCALED else None
        note = {
            "sched": "the code does not compile against the scheduling shims; checked with the real threads instead, without exploring schedules",
            "small": "the public nodes of a tree have a different shape; the approximate median is checked with many points only",
            "distance": "the public distance functions have a different shape; checked through queries only",
            "nodes": "the public nodes of a tree have a different shape; checked through queries only",
        }[special]
        print("note: " + note, file=sys.stderr)
        write(log, out)
        root = os.path.join(BUILD, variant + "-real")
        os.makedirs(root, exist_ok=True)
    manifest(root, sources())
    ok, out = cargo(root, feats)
    if not ok:
        sys.stderr.write(out[-6000:])
        die(f"/repo does not build (variant {variant})")
    keep(os.path.join(BUILD, "target", "release", "harness"), binary)
    return binary, note


def run(cmd, timeout):
    p = subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return "timeout", out, err


def last_json(out):
    for line in reversed(out.strip().splitlines()):
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                pass
    return None


def replay(binary, prop, scen, model, limit=60):
    """Did the counterexample fail on the real code? Returns (bool, text)."""
    text = ""
    for extra in ([], ["--sym"]):
        rc, out, err = run([binary, "replay", prop, scen, model] + extra, limit)
        text += out + err[-2000:]
        if rc == 0 or rc == 3 or rc == 4:
            continue
        if rc == "timeout":
            return True, text + "\nFAILED: no answer within %d s" % limit
        if rc == 96:
            return True, text + "\nFAILED: deadlock"
        if rc == 1:
            return True, text
        if rc < 0:
            return True, text + "\nFAILED: killed by signal %d" % -rc
        if rc == 134 or rc == 139:
            return True, text + "\nFAILED: crashed"
    return False, text


def main():
    if len(sys.argv) < 2:
        die("usage: check.py <property>|setup")
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == "setup":
        for v in VARIANTS:
            build(v)
        return 0
    prop = sys.argv[1]
    if prop not in PLAN:
        die("unknown property " + prop)
    t0 = time.time()
    only = sys.argv[2] if len(sys.argv) > 2 else None
    notes = []
    jobs = []
    for v in PLAN[prop]:
        b, note = build(v)
        if note:
            notes.append(f"{v}: {note}")
        rc, out, err = run([b, "list", prop], 60)
        if rc != 0:
            die("cannot list scenarios: " + err)
        for line in out.splitlines():
            name, variants, cost = line.split("\t")
            if variants not in ("*",) and v not in variants.split(","):
                continue
            if only and not re.search(only, v + "/" + name):
                continue
            jobs.append((int(cost), v, b, name))
    if not jobs:
        die("no scenarios")
    build_s = time.time() - t0
    jobs.sort(key=lambda j: j[0])
    budget = BUDGET.get(prop, 60) * (12 if THOROUGH else 1)
    deadline = time.time() + budget
    lock = threading.Lock()
    results, problems, violations = [], [], []
    procs_stop = threading.Event()

    def worker():
        while True:
            with lock:
                if not jobs or violations:
                    return
                left = deadline - time.time()
                secs = max(2.0, left * JOBS / max(JOBS, len(jobs)))
                _, v, b, name = jobs.pop(0)
            model = os.path.join(BUILD, "models", f"{prop}-{v}-{name}")
            os.makedirs(os.path.dirname(model), exist_ok=True)
            rc, out, err = run([b, "run", prop, name, "%.1f" % secs, model], secs + 90)
            d = last_json(out)
            bad = None
            if rc == 0 and d is not None:
                d["variant"] = v
                if d.get("violation") and v == "small" and re.search(r"chunk.?size.*(zero|greater than 0)", d["violation"]["label"]):
                    # pieces of so few points may be empty where pieces of 100 000 are not
                    with lock:
                        notes.append(f"{v}/{name}: stopped at {d['violation']['label']}, for too few points")
                elif d.get("violation"):
                    bad = d["violation"]["label"] + "; inputs " + d["violation"]["desc"]
                    with open(model, "w") as f:
                        f.write(d["violation"]["model"])
                elif d.get("note"):
                    with lock:
                        problems.append(f"{v}/{name}: {d['note']}")
                with lock:
                    results.append(d)
            elif rc == 97:
                bad = "one execution did not end in time"
            elif rc == 96:
                bad = "deadlock"
            elif rc == "timeout":
                with lock:
                    problems.append(f"{v}/{name}: exploration did not stop in time")
            elif isinstance(rc, int) and (rc < 0 or rc in (134, 139)):
                bad = f"the process crashed (status {rc}) {err.strip()[-300:]}"
            else:
                with lock:
                    problems.append(f"{v}/{name}: worker exit {rc}: {err.strip()[-600:]}")
            if bad:
                yes, text = replay(b, prop, name, model)
                with lock:
                    if yes:
                        violations.append((v, name, bad, model, text))
                    else:
                        problems.append(f"{v}/{name}: not reproduced on the real code: {bad}\n{text}")

    ts = [threading.Thread(target=worker) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]

    wall = time.time() - t0
    evidence(prop, results, problems, violations, notes, wall, build_s)
    if violations:
        for v, name, bad, model, text in violations[:3]:
            path = os.path.join(OUT, "evidence", "replay", f"{prop}-{v}-{name}.txt")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(open(model).read() if os.path.exists(model) else "")
            print(f"# {v}/{name}: {bad}")
            print("# " + text.strip().replace("\n", "\n# "))
            print(f"# again: {BUILD}/harness-{v} replay {prop} {name} {path}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems:
        for p in problems:
            print("problem: " + p, file=sys.stderr)
        return 2
    done = sum(1 for r in results if not r["incomplete"])
    q = sum(r["queries"] for r in results)
    print(f"{prop}: held; {len(results)} scenarios ({done} explored completely), {sum(r['paths'] for r in results)} paths, {q} solver queries, {wall:.0f} s")
    return 0


def evidence(prop, results, problems, violations, notes, wall, build_s):
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    samples = []
    for r in results:
        for s in r.get("samples", [])[:1]:
            samples.append(f"{r['variant']}/{r['scenario']}: {s}")
    e = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": "model_checking",
        "coverage": {
            # states: symbolic paths; transitions: branch decisions
            "states": tot("paths"),
            "transitions": tot("branches"),
            "traces_validated_against_impl": tot("native_runs"),
            "samples": samples[:12] or ["none"],
            "explanation": "Each path is one run of the real functions with symbolic inputs; the solver decided whether the other side of every branch is reachable, and for every path whether any input following it breaks the assertion. A scenario is exhaustive within its bounds when it has no open branches.",
            "exhaustive": bool(results) and all(not r["incomplete"] for r in results) and not problems,
            "solver_queries": tot("queries"),
            "solver_sat": tot("sat"),
            "solver_unsat": tot("unsat"),
            "solver_unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_s"), 2),
            "assertion_queries": tot("goal_queries"),
            "paths_whose_assertions_simplified_to_true": tot("goals_folded"),
            "assertions": tot("assertions"),
            "branch_sides_infeasible": tot("infeasible"),
            "native_result_differs_within_spec": tot("native_mismatch"),
            "scenarios": [
                {
                    "name": f"{r['variant']}/{r['scenario']}",
                    "bounds": r["bounds"],
                    "functions": r["funcs"],
                    "paths": r["paths"],
                    "queries": r["queries"],
                    "solver": r["solver"],
                    "solver_seconds": round(r["solver_s"], 2),
                    "complete": not r["incomplete"],
                    "open_branches": r["incomplete"],
                }
                for r in sorted(results, key=lambda r: (r["variant"], r["scenario"]))
            ],
            "problems": problems,
            "notes": notes,
            "build_seconds": round(build_s, 1),
        },
        "assumptions": [
            "bounds as listed per scenario; nothing outside them is claimed",
            "scenarios with open branches ran out of time: only the explored paths are claimed",
            "integer scenarios: coordinates are integers, on which the real f64 arithmetic is exact; the float scenarios cover rounding",
            "trusted: the symbolic scalar and its SMT encoding (each path is also run natively on f64 or f32 with the model's values), and the SMT solver",
        ],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
