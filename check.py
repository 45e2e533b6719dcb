#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of /repo's working tree.

Compiles the tree together with the harnesses to LLVM IR, executes the
property's harness entries symbolically (engine/), replays every counterexample
and a sample of the path witnesses against a native build of the same tree, and
writes evidence/ID.json. Exit 0: holds within the bounds; 1: violated (a
VIOLATION line names the replay file); anything else: no answer.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.normpath(os.path.join(HERE, "..", "repo"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1"))


def die(msg, code=2):
    print("ERROR " + msg, flush=True)
    sys.exit(code)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HERE, "harness/src"), os.path.join(HERE, "engine/src")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for p in (REPO + "/Cargo.toml", HERE + "/harness/Cargo.toml", HERE + "/harness/Cargo.lock", HERE + "/harness/build.rs", HERE + "/engine/Cargo.toml",
              HERE + "/engine/build.rs", HERE + "/build_ir.sh"):
        h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def run(cmd, what, env=None, timeout=1200):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise RuntimeError("%s failed:\n%s" % (what, r.stdout.decode(errors="replace")[-4000:]))


def build():
    """Engine, native harness and the LLVM module, all from the current sources."""
    key = tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "tree-" + key)
    done = os.path.join(out, "done")
    if not os.path.exists(done):
        for old in glob.glob(os.path.join(BUILD, "tree-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)

        def engine():
            run(["cargo", "build", "-q", "--release", "--offline", "--locked", "--manifest-path", HERE + "/engine/Cargo.toml"],
                "building the executor", {"CARGO_TARGET_DIR": BUILD + "/engine"})
            shutil.copy(BUILD + "/engine/release/symir", out + "/symir")

        def native():
            t = BUILD + "/native"
            for p in glob.glob(t + "/debug/.fingerprint/*kpdb-*") + glob.glob(t + "/debug/.fingerprint/harness-*"):
                shutil.rmtree(p, ignore_errors=True)
            run(["cargo", "build", "-q", "--offline", "--locked", "--manifest-path", HERE + "/harness/Cargo.toml"],
                "building the native harness", {"CARGO_TARGET_DIR": t})
            shutil.copy(t + "/debug/harness", out + "/native")

        def bitcode():
            run(["bash", HERE + "/build_ir.sh", "bc", out + "/h.bc", BUILD + "/ir"], "compiling to LLVM IR")

        with ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(engine), ex.submit(native), ex.submit(bitcode)]:
                f.result()
        open(done, "w").close()
    return out


def replay(native, text, valgrind=False):
    """Run one recorded path natively: (outcome, observations)."""
    fd, p = tempfile.mkstemp(prefix="replay-", suffix=".txt", dir=BUILD)
    with os.fdopen(fd, "w") as f:
        f.write(text)
    cmd = [native, p]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120 if valgrind else 20)
    except subprocess.TimeoutExpired:
        return "hang", []
    finally:
        os.unlink(p)
    o = r.stdout.decode(errors="replace").splitlines()
    out = [l[8:] for l in o if l.startswith("outcome ")]
    obs = [l for l in o if l.startswith("obs ")]
    if valgrind and r.returncode == 77:
        return "memory " + " ".join(r.stderr.decode(errors="replace").splitlines()[:1]), obs
    if r.returncode < 0 and not (out and out[0].startswith("panic")):
        return "abort signal %d" % -r.returncode, obs
    return (out[0] if out else "none (exit %d)" % r.returncode), obs


def outcome_of(text):
    return next((l[8:] for l in text.splitlines() if l.startswith("outcome ")), "none")


def inputs_of(text):
    return "\n".join(l for l in text.splitlines() if not l.startswith(("outcome ", "obs ", "#")))


def clean(out):
    """An outcome without source positions."""
    return re.sub(r"(\.rs):\d+:\d+", r"\1", out)


def known_findings():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die("usage: check.py ID [quick|thorough]; ids: " + " ".join(sorted(PROPS)))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        tree = build()
    except RuntimeError as e:
        die(str(e))
    t_build = time.time() - t0
    entries = list(P["entries"])
    if tier == "thorough":
        entries += P.get("thorough", [])
    ll = os.path.join(tree, pid + "-" + tier + ".ll")
    if not os.path.exists(ll):
        try:
            run(["bash", HERE + "/build_ir.sh", "ll", tree + "/h.bc", ll, ",".join(entries)], "preparing the IR", {"SYMIR": tree + "/symir"})
        except RuntimeError as e:
            die(str(e))
    t_ir = time.time() - t0 - t_build
    out = os.path.join(tree, "out-" + pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    dump = os.path.join(out, "smt")
    deadline = P.get("deadline", 420) if tier == "quick" else P.get("deadline_thorough", 3000)
    cmd = [tree + "/symir", "--ll", ll, "--out", out, "--entries", ",".join(entries), "--jobs", "8", "--deadline", str(deadline),
           "--seed", str(SEED), "--max-viol", str(P.get("max_viol", 12)), "--traces", str(6 if tier == "quick" else 20),
           "--tier", "1" if tier == "thorough" else "0"]
    if tier == "thorough":
        os.makedirs(dump)
        cmd += ["--dump", dump]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    log = r.stdout.decode(errors="replace")
    if r.returncode != 0:
        die("the executor stopped (%d):\n%s" % (r.returncode, log[-3000:]))
    t_exec = time.time() - t0 - t_build - t_ir
    ent, solver, functions, asserted, viols, traces = {}, {}, set(), {}, [], []
    for f in sorted(glob.glob(out + "/*.json")):
        j = json.load(open(f))
        for e, s in j["entries"].items():
            d = ent.setdefault(e, {})
            for k, v in s.items():
                if isinstance(v, dict):
                    q = d.setdefault(k, {})
                    for a, b in v.items():
                        q[a] = q.get(a, 0) + b
                elif isinstance(v, list):
                    d[k] = d.get(k, []) + v
                else:
                    d[k] = d.get(k, 0) + v
        for k, v in j["solver"].items():
            solver[k] = v if isinstance(v, str) else solver.get(k, 0) + v
        functions.update(j["functions"])
        for k, v in j["asserted"].items():
            a = asserted.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
        viols += j["violations"]
        traces += j["traces"]
    tot = lambda k: sum(d.get(k, 0) for d in ent.values())
    incomplete = sorted({"%s: %s" % (e, x) for e, d in ent.items() for x in d.get("incomplete", [])})
    vacuous = [e for e in entries if not ent.get(e, {}).get("reached") and not ent.get(e, {}).get("violations")]

    native = tree + "/native"
    # the same paths on the real code
    agree, skipped, differ, failed = 0, 0, [], []
    with ThreadPoolExecutor(8) as ex:
        for t, (o, obs) in zip(traces, ex.map(lambda t: replay(native, inputs_of(t) + "\n"), traces)):
            want, wobs = outcome_of(t), [l for l in t.splitlines() if l.startswith("obs ")]
            if o == "diverged assume":
                skipped += 1
            elif clean(o).split(" ")[0] == want.split(" ")[0] and (wobs == obs or "obs ?" in wobs):
                agree += 1
            elif o.split(" ")[0] in ("assert", "panic", "abort"):
                # for the real SHA-256 and AES instead of the solver's, this path fails
                failed.append((t, o))
            else:
                differ.append("%s\n# natively: %s\n%s" % (t, o, "\n".join(obs)))
    # counterexamples
    real, unreal = failed, []
    for v in viols:
        want = outcome_of(v)
        mem = want.startswith("memory")
        o, _ = replay(native, inputs_of(v) + "\n", valgrind=mem)
        if o.split(" ")[0] in ("assert", "panic", "memory", "abort", "hang"):
            real.append((v, o))
        else:
            unreal.append("%s\n# natively: %s" % (v, o))

    known = [k for k in known_findings()["findings"] if k["property"] == pid]
    new, hit = [], {}
    for v, o in real:
        e = re.search(r"^entry (\S+)", v, re.M).group(1)
        k = next((k for k in known if k["entry"] == e and clean(o).startswith(k["outcome"])
                  and all(re.search(c, v, re.M) for c in k.get("inputs", []))), None)
        if k is not None:
            hit[k["id"]] = k
        else:
            new.append((e, v, o))
    cross = None
    if tier == "thorough":
        cross = crosscheck(dump)
        if cross["disagreements"]:
            incomplete.append("another solver disagrees: %s" % cross["disagreements"][:3])

    ev = {
        "property": pid,
        "tier": tier,
        "seed": SEED,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("sym_branches"),
            "traces_validated_against_impl": agree,
            "samples": traces[:4],
            "exhaustive": not incomplete,
            "entries": {e: {k: v for k, v in d.items() if k != "incomplete"} for e, d in sorted(ent.items())},
            "instructions_executed": tot("instrs"),
            "assertions": {"checked": tot("asserts"), "on_symbolic_conditions": tot("assert_sym"),
                           "by_name": {k: {"checked": v[0], "symbolic": v[1]} for k, v in sorted(asserted.items())}},
            "solver": {"name": "z3 " + str(solver.get("version")), "queries": solver.get("queries"), "sat": solver.get("sat"),
                       "unsat": solver.get("unsat"), "unknown": solver.get("unknown"), "answered_from_cache": solver.get("cached"),
                       "time_ms": round(solver.get("ms", 0), 1)},
            "functions_encoded": sorted(functions),
            "bounds": P["bounds"],
            "outside": P["outside"],
            "traces_not_comparable": skipped,
            "traces_that_differ": len(differ),
            "incomplete": incomplete,
            "counterexamples": {"reproduced": len(real), "not_reproduced": len(unreal), "known": sorted(hit)},
            "seconds": {"build": round(t_build, 1), "ir": round(t_ir, 1), "execution": round(t_exec, 1)},
        },
        "assumptions": P.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new),
    }
    if cross:
        ev["coverage"]["cross_checked"] = cross
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d assertions, %d queries (%.1f s), %d/%d witnesses agree natively, %.0f s"
          % (pid, tier, tot("paths"), tot("asserts"), solver.get("queries", 0), solver.get("ms", 0) / 1e3, agree, len(traces), time.time() - t0))
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if new:
        for i, (e, v, o) in enumerate(new[:5]):
            p = "evidence/replay/%s-%d.txt" % (pid, i)
            with open(os.path.join(HERE, p), "w") as f:
                f.write(v + "\n# natively: %s\n# to repeat: build/tree-*/native %s\n" % (o, p))
            print("  %s: %s" % (e, o))
            print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
        sys.exit(1)
    bad = False
    for what, l in (("unfinished", incomplete), ("not reproduced natively", unreal), ("native run differs", differ), ("reached nothing", vacuous)):
        for x in l[:4]:
            bad = True
            print("NO ANSWER (%s): %s" % (what, x[:1500]))
    sys.exit(2 if bad else 0)


def crosscheck(dump):
    """Give a sample of the unsatisfiable queries to two other solvers."""
    qs = sorted(glob.glob(dump + "/*.smt2"))
    step = max(1, len(qs) // 120)
    qs = qs[::step]
    bad, ok, un = [], {"cvc5": 0, "z3-4.8": 0}, 0

    def one(job):
        name, cmd, q = job
        try:
            r = subprocess.run(cmd + [q], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
            return name, q, r.stdout.decode().strip().splitlines()[0] if r.stdout else ""
        except subprocess.TimeoutExpired:
            return name, q, "timeout"

    jobs = [(n, c, q) for q in qs for n, c in (("cvc5", ["cvc5", "--tlimit=30000"]), ("z3-4.8", ["/usr/bin/z3", "-T:30"]))]
    with ThreadPoolExecutor(8) as ex:
        for name, q, a in ex.map(one, jobs):
            if a == "unsat":
                ok[name] += 1
            elif a == "sat":
                bad.append(name + " " + os.path.basename(q))
            else:
                un += 1
    shutil.rmtree(dump, ignore_errors=True)
    return {"queries": len(qs), "confirmed": ok, "no_answer": un, "disagreements": bad}


COMMON = [
    "SHA-256 on symbolic data is a fixed function without collisions; AES-256 under a fixed key is a permutation with its inverse; both are computed exactly on concrete data",
    "the system's random source and clock are modelled (distinct concrete or symbolic values); allocation never fails",
    "rustc's and LLVM's translation to the IR executed here is the one that runs",
]

if __name__ == "__main__":
    main()
