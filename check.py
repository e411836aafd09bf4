#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.

  check.py <ID>             build from /repo's working tree, explore, validate, report
  check.py --setup          build the engine and warm the build directories
  check.py --replay FILE    run one recorded counterexample against the real code

VERIF_TIER (quick|thorough) and VERIF_SEED select bounds and the deterministic shapes.
Exit 0: held on everything explored.  1: violated (VIOLATION line).  2: the check could not give an answer.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
HARNESS = os.path.join(V, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = re.sub(r"[^0-9]", "", os.environ.get("VERIF_SEED", "1")) or "1"
SEED = str(int(SEED) % 100000)
THOROUGH = TIER == "thorough"
sys.path.insert(0, V)
from props import PROPS  # noqa: E402

Z3S = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so.4",
]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Failed(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=None, inp=None):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def env_base():
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_") or k in ("CARGO_HOME",)}
    for k in ("RUSTC_WRAPPER", "RUSTC", "RUSTFLAGS", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["SX_SEED"] = SEED
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_engine():
    with Lock("engine"):
        r = run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "engine")], env=env_base(), cwd=os.path.join(V, "engine"))
        if r.returncode:
            raise Failed("engine does not build:\n" + r.stdout[-3000:])
    return os.path.join(B, "engine", "release", "symex")


def gen_env(pid):
    g = os.path.join(B, "gen-" + pid)
    return {"SX_GEN": g} if os.path.isdir(g) else {}


def build_bitcode(pid):
    """whole-program LLVM bitcode of the harness, ethereum_ssz, its dependencies and std"""
    out = os.path.join(B, pid + ".bc")
    tgt = os.path.join(B, "bc")
    e = env_base()
    e.update(gen_env(pid))
    cfg = " --cfg sx_thorough" if THOROUGH else ""
    e["RUSTFLAGS"] = "-C no-vectorize-loops -C no-vectorize-slp --cfg sx_engine" + cfg
    with Lock("bc"):
        for f in glob.glob(os.path.join(tgt, "release", "deps", "harness*.bc")):
            os.remove(f)
        # (cargo would call the harness fresh when it was built before, possibly for another property)
        for f in glob.glob(os.path.join(tgt, "release", ".fingerprint", "harness-*")):
            shutil.rmtree(f)
        r = run(["cargo", "rustc", "--offline", "--release", "--lib", "--features", pid.lower(), "--target-dir", tgt, "--crate-type", "cdylib", "--", "--emit=llvm-bc"], env=e, cwd=HARNESS)
        fs = glob.glob(os.path.join(tgt, "release", "deps", "harness*.bc"))
        if r.returncode or len(fs) != 1:
            raise Failed("harness bitcode does not build:\n" + r.stdout[:3000] + r.stdout[-3000:])
        shutil.copyfile(fs[0], out)
    return out


def build_native(pid):
    tgt = os.path.join(B, "native")
    out = os.path.join(B, pid + ".replay")
    e = env_base()
    e.update(gen_env(pid))
    e["RUSTFLAGS"] = "--cfg sx_thorough" if THOROUGH else ""
    with Lock("native"):
        r = run(["cargo", "build", "--offline", "--features", pid.lower(), "--target-dir", tgt, "--bin", "replay"], env=e, cwd=HARNESS)
        if r.returncode:
            raise Failed("native harness does not build:\n" + r.stdout[:3000] + r.stdout[-3000:])
        shutil.copy2(os.path.join(tgt, "debug", "replay"), out + ".tmp")
        os.replace(out + ".tmp", out)
    return out


def sysroot():
    r = subprocess.run(["rustc", "--print", "sysroot"], env=env_base(), stdout=subprocess.PIPE, text=True)
    return r.stdout.strip()


def libllvm():
    fs = sorted(glob.glob(os.path.join(sysroot(), "lib", "libLLVM*.so*")), key=lambda f: os.path.getsize(f))
    if not fs:
        raise Failed("libLLVM of the toolchain not found")
    return fs[-1]  # (one of them is a linker script)


def native(exe, lines, timeout=20):
    """run draw strings natively; one (how, hash, covers, fails) each; a crash or a hang ends one process"""
    out = []
    i = 0
    while i < len(lines):
        p = subprocess.Popen(["bash", "-c", "ulimit -v 8000000; ulimit -c 0; exec \"$0\"", exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            o, _ = p.communicate("\n".join(lines[i:]) + "\n", timeout=timeout + 0.02 * (len(lines) - i))
            late = False
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            late = True
        got = [x for x in o.split("\n") if x]
        for g in got:
            f = g.split("|", 3)
            out.append((f[0], f[1], f[2], f[3] if len(f) > 3 else ""))
        i += len(got)
        if i < len(lines) and not (got and got[-1].startswith("allocation|")):
            out.append(("hang" if late else "crash(%s)" % p.returncode, "", "", ""))
            i += 1
    return out


def native_par(exe, lines, n=8):
    if not lines:
        return []
    k = (len(lines) + n - 1) // n
    parts = [lines[i:i + k] for i in range(0, len(lines), k)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda p: native(exe, p), parts))
    return [r for part in res for r in part]


def reproduces(v, r):
    how, _, _, fails = r
    k = v["kind"]
    if k == "check":
        return v["msg"] in fails
    if k == "allocation":
        return how == "allocation" or how.startswith("crash")
    if k == "nontermination":
        return how == "hang"
    if k in ("panic", "arithmetic", "unreachable", "abort", "stack", "memory"):
        return how == "panic" or how.startswith("crash")
    return False


def fn_table(path):
    """line -> enclosing fn name, from the source text (for the evidence only)"""
    t = []
    try:
        src = open(path).read().split("\n")
    except OSError:
        return None
    cur = ""
    for line in src:
        m = re.search(r"\bfn\s+([A-Za-z0-9_$]+)", line)
        if m:
            cur = m.group(1)
        t.append(cur)
    return t


def functions_encoded(hit):
    per = {}
    tabs = {}
    for h in hit:
        f, _, l = h.rpartition(":")
        if not f.startswith(REPO + "/"):
            continue
        if f not in tabs:
            tabs[f] = fn_table(f)
        t = tabs[f]
        l = int(l)
        if t and 0 < l <= len(t):
            per.setdefault(f[len(REPO) + 1:], {}).setdefault(t[l - 1], set()).add(l)
    return {f: {fn or "?": len(ls) for fn, ls in sorted(d.items())} for f, d in sorted(per.items())}


def cross_check(d, n):
    """dumped queries (with Z3's answer as :status) decided again by two other solvers"""
    fs = sorted(glob.glob(os.path.join(d, "*.smt2")))
    step = max(1, len(fs) // n)
    fs = fs[::step][:n]
    res = {"queries": 0, "agree": 0, "no_answer": 0, "disagree": []}

    def one(f):
        txt = open(f).read()
        m = re.search(r":status\s+(sat|unsat)", txt)
        want = m.group(1) if m else "?"
        outs = []
        for cmd in (["cvc5", "--tlimit=10000", f], ["z3", "-T:10", f]):
            try:
                o = run(cmd, timeout=20).stdout.split("\n")[0].strip()
            except Exception:
                o = "timeout"
            outs.append(o)
        return f, want, outs

    with ThreadPoolExecutor(8) as ex:
        for f, want, outs in ex.map(one, fs):
            res["queries"] += 1
            if any(o in ("sat", "unsat") and o != want for o in outs):
                res["disagree"].append(os.path.basename(f))
            elif any(o == want for o in outs):
                res["agree"] += 1
            else:
                res["no_answer"] += 1
    return res


def known_findings(pid):
    """entries that describe recorded (not repaired) defects: finding: property=.. kind=.. msg=.. draws~=regex"""
    out = []
    try:
        for line in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) kind=(\S+) draws~(\S+) msg=(.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append({"kind": m.group(2), "draws": m.group(3), "msg": m.group(4)})
    except OSError:
        pass
    return out


def is_known(v, kf):
    return any(k["kind"] == v["kind"] and k["msg"] == v["msg"] and re.search(k["draws"], v["draws"]) for k in kf)


def unbuilt(pid, ev, rep, msgs, text, t0):
    """the generated definitions do not compile against this tree"""
    for i, m in enumerate(msgs[:10]):
        p = os.path.join(rep, f"{pid}-{i}.json")
        json.dump(dict(property=pid, tier=TIER, seed=SEED, kind="probe", msg=m, draws="", compiler=text[-4000:]), open(p, "w"), indent=1)
        log(f"[{pid}] {m}")
        print(f"VIOLATION property={pid} replay={p}", flush=True)
    json.dump({"property": pid, "tier": TIER, "seed": int(SEED), "level": "model_checking",
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": False, "explanation": "the definitions do not compile"},
               "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": len(msgs)}, open(ev, "w"), indent=1)
    return 1


def check(pid):
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rep = os.path.join(B, "replay")
    os.makedirs(rep, exist_ok=True)
    ev = os.path.join(V, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    pre = P["pre"](sys.modules[__name__], pid) if "pre" in P else {}
    try:
        with ThreadPoolExecutor(3) as ex:
            fe, fb, fn = ex.submit(build_engine), ex.submit(build_bitcode, pid), ex.submit(build_native, pid)
            eng, bc, exe = fe.result(), fb.result(), fn.result()
    except Failed as e:
        # a definition with an SSZ meaning for which the macros produce no (compiling) codec
        m = re.search(r"error[^\n]*\n\s*--> %s\S*" % re.escape(os.path.join(B, "gen-" + pid)), str(e))
        if not m:
            raise
        return unbuilt(pid, ev, rep, pre.get("violations", []) + ["the derived codec of a valid definition does not compile: " + m.group(0)], str(e), t0)
    t_build = time.time() - t0
    log(f"[{pid}] built in {t_build:.1f}s")
    z3 = next((z for z in Z3S if os.path.exists(z)), None)
    if not z3:
        raise Failed("no libz3")
    res = os.path.join(B, pid + ".json")
    smp = os.path.join(B, pid + ".samples")
    dump = os.path.join(B, "dump-" + pid)
    shutil.rmtree(dump, ignore_errors=True)
    os.makedirs(dump)
    budget = P.get("budget_thorough", 1800) if THOROUGH else P.get("budget", 150)
    ignore = P.get("ignore", ["nontermination", "allocation", "stack"])
    cmd = [eng, "--llvm", libllvm(), "--bc", bc, "--z3", z3, "--out", res, "--samples-out", smp,
           "--samples", "1", "--threads", str(min(8, os.cpu_count() or 8)), "--budget", str(budget), "--max-steps", str(P.get("steps", 3000000)),
           "--qtimeout", "120000" if THOROUGH else "30000", "--reset-every", "20", "--ignore", ",".join(ignore),
           "--dump", dump, "--dump-every", "400" if THOROUGH else "100", "--src", REPO + "/"]
    kf = known_findings(pid)
    stubbed = True
    while True:
        for f in (res, smp):
            if os.path.exists(f):
                os.remove(f)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 240)
        if r.returncode or not os.path.exists(res):
            raise Failed(f"engine failed ({r.returncode}):\n" + r.stdout[-3000:])
        d = json.load(open(res))

        # ---- counterexamples first: every one is run against the real code before it counts
        real, spurious = [], []
        for v in d["violations"]:
            r = native(exe, [v["draws"]])[0]
            v["native"] = list(r)
            (real if reproduces(v, r) else spurious).append(v)

        # ---- explored paths replayed natively: same ending, same observations, same coverage marks
        lines = [l for l in open(smp).read().split("\n") if l]
        cap = 20000 if THOROUGH else 3000
        step = max(1, len(lines) // cap)
        lines = lines[::step][:cap]
        nat = native_par(exe, [l.split("|", 3)[3] for l in lines])
        mism = []
        for l, n in zip(lines, nat):
            how, h, cov, dr = l.split("|", 3)
            if (how, h, sorted(cov.split(","))) != (n[0], n[1], sorted(n[2].split(","))) or n[3]:
                # a failing check on a sampled path is a violation the engine reports separately
                mism.append({"draws": dr, "engine": [how, h, cov], "native": list(n)})
        if not real and (spurious or mism) and stubbed:
            # text made by format! may matter here: execute the formatting machinery too
            log(f"[{pid}] {len(spurious)} spurious counterexamples, {len(mism)} mismatches: again without the formatting stub")
            stubbed = False
            cmd += ["--real-fmt", "1"]
            continue
        break
    t_eng = time.time() - t0 - t_build
    known = [v for v in real if is_known(v, kf)]
    real = [v for v in real if not is_known(v, kf)]
    real += [dict(kind="probe", msg=m, draws="", trace=[], native=[]) for m in pre.get("violations", [])]

    # ---- marks that have to be reachable: a violation where everything that could reach one was explored
    opened = {j[0] if j else None for j in d["open_jobs"]}
    unknown = []
    for i, (k, name) in enumerate(P.get("exists", {}).items()):
        if str(k) in d["covers"]:
            continue
        # (the first choice of the harness selects the entry of the table)
        if None in opened or i in opened or (d["incomplete_count"] and not opened):
            unknown.append(k)
        else:
            real.append(dict(kind="probe", msg=P["exists_msg"] % name, draws="", trace=[], native=[]))

    xc = cross_check(dump, 200 if THOROUGH else 16)
    shutil.rmtree(dump, ignore_errors=True)

    missing = [c for c in P["covers"] if str(c) not in d["covers"]] + unknown
    cut = d.get("cut", {})
    complete = d["incomplete_count"] == 0 and not any(v for k, v in cut.items()) and not spurious
    samples = [{"path": l.split("|", 3)[0], "observation_hash": l.split("|", 3)[1], "marks": l.split("|", 3)[2], "inputs": l.split("|", 3)[3][:200]} for l in lines[:: max(1, len(lines) // 5)][:5]]
    evd = {
        "property": pid,
        "tier": "thorough" if THOROUGH else "quick",
        "seed": int(SEED),
        "level": "model_checking",
        "coverage": {
            "states": d["paths"],
            "transitions": d["sym_branches"],
            "traces_validated_against_impl": len(lines) - len(mism),
            "samples": samples,
            "exhaustive": bool(complete),
            "explanation": "states = complete paths (each stands for all values of its symbolic inputs); transitions = branches on symbolic conditions decided by the solver or by simplification",
            "bounds": P["bounds_thorough"] if THOROUGH and "bounds_thorough" in P else P["bounds"],
            "outside": P.get("outside", ""),
            "jobs": d["jobs"],
            "forks": d["forks"],
            "instructions_executed": d["steps"],
            "infeasible_paths": d["infeasible"],
            "assertions_decided_by_simplification": d["checks_trivial"],
            "assertions_decided_by_solver": d["checks_solved"],
            "memory_bounds_decided": d["mem_checks"],
            "queries": d["queries"],
            "queries_sat": d["sat"],
            "queries_unsat": d["unsat"],
            "queries_unknown": d["unknown"],
            "solver": "Z3 " + d["z3"],
            "solver_s": d["solver_s"],
            "slowest_query_s": d["max_query_s"],
            "cross_check": xc,
            "paths_cut": cut,
            "incomplete": d["incomplete"][:20],
            "incomplete_count": d["incomplete_count"],
            "marks_reached": d["covers"],
            "marks_not_reached": missing,
            "functions_encoded": functions_encoded(d["lines_hit"]),
            "repo_lines_executed": len([x for x in d["lines_hit"] if x.startswith(REPO)]),
            "build_s": round(t_build, 1),
            "engine_s": round(t_eng, 1),
        },
        "assumptions": P.get("assumptions", []) + [c for c in COMMON if stubbed or "empty string" not in c],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    evd["coverage"].update(pre.get("coverage", {}))
    json.dump(evd, open(ev, "w"), indent=1)

    for v in known:
        print(f"KNOWN-FINDING: property={pid} {v['kind']}: {v['msg']}")
    for i, v in enumerate(real[:10]):
        p = os.path.join(rep, f"{pid}-{i}.json")
        json.dump({"property": pid, "tier": TIER, "seed": SEED, **v}, open(p, "w"), indent=1)
        log(f"[{pid}] {v['kind']}: {v['msg']}")
        log(f"    inputs: {v['draws'][:300]}")
        log(f"    native: {v['native']}")
        for t in v["trace"][:6]:
            log(f"      at {t}")
        print(f"VIOLATION property={pid} replay={p}", flush=True)
    log(f"[{pid}] paths={d['paths']} queries={d['queries']} solver={d['solver_s']:.1f}s engine={t_eng:.1f}s wall={time.time()-t0:.1f}s "
        f"replayed={len(lines)} mismatches={len(mism)} incomplete={d['incomplete_count']} cut={cut} covers={d['covers']}")
    if real:
        return 1
    if spurious:
        log(f"[{pid}] {len(spurious)} counterexamples do not reproduce natively; first: {json.dumps(spurious[0])[:1500]}")
        return 2
    if mism:
        log(f"[{pid}] {len(mism)} explored paths behave differently natively; first: {json.dumps(mism[0])[:1500]}")
        return 2
    if xc["disagree"]:
        log(f"[{pid}] solvers disagree on {xc['disagree']}")
        return 2
    if missing:
        log(f"[{pid}] marks not reached: {missing}; incomplete: {d['incomplete'][:5]}")
        # without anything left unexplored the harness is vacuous; otherwise the evidence says what is missing
        return 2 if complete or not d["paths"] else 0
    return 0


COMMON = [
    "rustc -O (stable) preserves the semantics of the source; the build has overflow checks and ethereum_ssz's debug assertions on",
    "the engine's model of LLVM IR (validated on this run by replaying explored paths natively) and Z3 (a sample of queries decided again by cvc5 and Z3 4.8.12)",
    "error message texts (alloc::fmt::format) are replaced by the empty string",
    "64-bit little-endian target",
]


def replay(path):
    v = json.load(open(path))
    if v["kind"] == "probe":
        print(v["msg"])
        return 1
    global TIER, THOROUGH, SEED
    TIER, SEED = v["tier"], v["seed"]
    THOROUGH = TIER == "thorough"
    P = PROPS[v["property"]]
    if "pre" in P:
        P["pre"](sys.modules[__name__], v["property"])
    exe = build_native(v["property"])
    r = native(exe, [v["draws"]])[0]
    print(json.dumps({"expected": v["kind"] + ": " + v["msg"], "native": r}))
    return 1 if reproduces(v, r) else 0


def setup():
    build_engine()
    for pid in ("C01",):
        build_bitcode(pid)
        build_native(pid)
    return 0


def main():
    try:
        if sys.argv[1] == "--setup":
            return setup()
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return check(sys.argv[1])
    except Failed as e:
        log(str(e))
        return 2
    except subprocess.TimeoutExpired as e:
        log("timeout: " + str(e)[:300])
        return 2


if __name__ == "__main__":
    sys.exit(main())
