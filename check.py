#!/usr/bin/env python3
"""Runs the symbolic check of one property against /repo's current tree.

usage: check.py PROPERTY [quick|thorough]
       check.py --setup            build engine, std bitcode and all harnesses
       check.py --replay BIN HARNESS FILE

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed, the
counterexample was reproduced natively against the real code.  Exit 2: the
check could not decide (build failure, engine limit, unreproduced model).
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T = os.path.join(V, "target")
HT = os.path.join(T, "h")
TRIPLE = "x86_64-unknown-linux-gnu"
REL = os.path.join(HT, TRIPLE, "release")
RSYM = os.path.join(T, "rsym/release/rsym")
STD = os.path.join(T, "std.bc")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", DOCS_RS="1")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)

# property -> (harness binary, harness prefix); quick harnesses are
# h_<prefix>_*, the thorough tier adds h_<prefix>d_*.
from props import PROPS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(T, "rsym"))
    r = run(["cargo", "build", "--offline", "--release", "--quiet"], cwd=os.path.join(V, "rsym"), env=e)
    if r.returncode:
        raise SystemExit2("engine build failed:\n" + r.stdout[-3000:])


def build_std():
    if os.path.exists(STD):
        return
    os.makedirs(T, exist_ok=True)
    r = run(["bash", os.path.join(V, "rsym/stdbc.sh"), STD], env=ENV)
    if r.returncode:
        raise SystemExit2("std bitcode extraction failed:\n" + r.stdout[-3000:])


class SystemExit2(Exception):
    pass


def repo_digest():
    h = hashlib.sha256()
    for d in ("contracts", "packages"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith((".rs", ".toml")):
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as g:
                        h.update(g.read())
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as g:
        h.update(g.read())
    return h.hexdigest()


def build_harness(b):
    """compile the harness binary `b` with the contracts it drives to bitcode
    and to a native executable; returns (bitcode files, executable)"""
    # content-based freshness: mtimes alone could hide a changed source
    stamp = os.path.join(HT, "repo.digest")
    dg = repo_digest()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != dg:
        fp = os.path.join(REL, ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("hpl-") or n.startswith("harness-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    lock = os.path.join(V, "harness/Cargo.lock")
    e = dict(ENV, CARGO_TARGET_DIR=HT)
    e["RUSTFLAGS"] = "-C no-prepopulate-passes -C no-vectorize-loops -C no-vectorize-slp -C embed-bitcode=no --emit=llvm-bc"
    cmd = ["cargo", "build", "--offline", "--release", "--target", TRIPLE, "--features", b, "--bin", b, "--message-format=json"]
    r = subprocess.run(cmd, cwd=os.path.join(V, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise SystemExit2("harness build failed:\n" + r.stderr[-4000:])
    os.makedirs(HT, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(dg)
    main, libs, exe = None, [], None
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact":
            continue
        k = m["target"]["kind"]
        if "bin" in k and m["target"]["name"] == b:
            exe = m["executable"]
            c = [os.path.join(REL, "deps", x) for x in os.listdir(os.path.join(REL, "deps")) if re.fullmatch(re.escape(b) + r"-[0-9a-f]+\.bc", x)]
            main = max(c, key=os.path.getmtime)
            continue
        for f in m["filenames"]:
            if f.endswith(".rlib") and TRIPLE in f:
                n = os.path.basename(f)[3:-5]
                if os.path.dirname(f).endswith("/deps"):
                    bc = os.path.join(os.path.dirname(f), n + ".bc")
                else:
                    bc = os.path.join(os.path.dirname(f), "deps", n + ".bc")
                if os.path.exists(bc):
                    libs.append(bc)
                else:
                    raise SystemExit2("no bitcode for " + f)
    if not main or not exe:
        raise SystemExit2("no harness artifact")
    return [main] + sorted(set(libs)), exe


def build(b):
    os.makedirs(T, exist_ok=True)
    with open(os.path.join(T, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(build_engine), ex.submit(build_std), ex.submit(build_harness, b)]
            return [f.result() for f in fs][2]


def harness_table(b):
    """harness name -> goals (reach labels) in it and in the local functions
    it calls, from the harness source"""
    src = open(os.path.join(V, "harness/src/bin", b + ".rs")).read()
    body, parts = {}, re.split(r"\bfn (\w+)\s*[(<]", src)
    for i in range(1, len(parts), 2):
        body[parts[i]] = parts[i + 1]
    out = {}
    for f in body:
        if not f.startswith("h_"):
            continue
        seen, todo, lab = set(), [f], set()
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            lab |= set(re.findall(r'reach\(\s*"([^"]+)"\s*\)', body[g]))
            todo += [x for x in set(re.findall(r"\b(\w+)\s*(?:::<[^>]*>)?\(", body[g])) if x in body and not x.startswith("h_")]
        out[f[2:]] = lab
    return out


def native(exe, harness, f, path):
    with open(path, "w") as o:
        for n, x in f["inputs"]:
            o.write(f"I {n} {x}\n")
        for n, v in f["choices"]:
            o.write(f"C {n} {v}\n")
    try:
        r = run([exe, harness], env=dict(ENV, SYM_REPLAY=path), timeout=120)
    except subprocess.TimeoutExpired:
        return None, ""
    return r.returncode, r.stdout


def known():
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) harness=(\S+) label=\"([^\"]*)\" (.*)", l)
            if m:
                out.append(m.groups())
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for b in sorted({x[0] for x in PROPS.values()}):
            t = time.time()
            build(b)
            log(f"setup: {b} {time.time() - t:.1f}s")
        return 0
    if a and a[0] == "--replay":
        _, exe = build(a[1])
        return subprocess.call([exe, a[2]], env=dict(ENV, SYM_REPLAY=a[3]))
    if a and a[0] == "--dev":
        bcs, _ = build(a[1])
        return subprocess.call([RSYM, "-v", "--out", os.path.join(T, "dev")] + a[2:] + bcs + [STD], env=ENV)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    b, prefix = PROPS[prop][:2]
    bcs, exe = build(b)
    tb = time.time() - t0
    tab = harness_table(b)
    hs = [h for h in tab if h.startswith(prefix + "_") or (tier == "thorough" and h.startswith(prefix + "d_"))]
    if not hs:
        raise SystemExit2("no harness for " + prop)
    out = os.path.join(T, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    limit = 420 if tier == "quick" else 3600 * 3
    cmd = [RSYM, "-v", "--out", out, "--jobs", "8", "--timeout", str(limit), "--solver-ms", "60000" if tier == "quick" else "600000"]
    kn = [k for k in known() if k[0] == prop]
    if tier == "quick" and not kn:
        cmd += ["--fail-grace", "25"]
    for h in hs:
        cmd += ["--harness", h]
    rdir = os.path.join(V, "evidence", "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    res, bad, viol, kf = [], [], [], []
    state = {"validated": 0, "disagreed": 0, "samples": []}

    def judge(h, d):
        """replays the counterexamples and goal models of one harness natively"""
        res.append(d)
        for i, f in enumerate(d["failures"]):
            rp = os.path.join(rdir, f"{h}-{i}.replay")
            rc, o = native(exe, h, f, rp)
            if rc in (77, 78):
                m = re.search(r"SYM-ASSERT (.*)", o)
                lab = m.group(1).strip() if m else f["label"]
                with open(rp, "a") as g:
                    g.write(f"# {prop}: {lab}\n# python3 {V}/check.py --replay {b} {h} {rp}\n")
                k = [x for x in kn if x[1] == h and x[2] == lab]
                if k:
                    kf.append((k[0], h, lab))
                else:
                    viol.append((h, lab, rp))
            else:
                bad.append(f"{h}: counterexample for '{f['label']}' did not reproduce natively (exit {rc})")
        for e in d["errors"]:
            bad.append(f"{h}: {e}")
        if not d["reach"] and not d["failures"]:
            bad.append(f"{h}: vacuous, no goal was reached")
        # conformance of the encoding: a solver model of each covered goal is
        # executed on the natively compiled contracts
        for i, f in enumerate(d["witnesses"]):
            rp = os.path.join(out, f"{h}-w{i}.replay")
            rc, o = native(exe, h, f, rp)
            got = set(re.findall(r"SYM-REACH (.*)", o))
            if rc == 0 and set(f["label"].split("|")) <= got:
                state["validated"] += 1
                if len(state["samples"]) < 6:
                    state["samples"].append({"harness": h, "reached": f["label"], "inputs": dict((n, x[:64]) for n, x in f["inputs"][:12]), "choices": dict(f["choices"])})
            elif rc == 77 and "SYM-ASSERT" in o:
                # the solver's inputs make the real code break the assertion
                # (in a part the engine summarises, such as number formats)
                lab = re.search(r"SYM-ASSERT (.*)", o).group(1).strip()
                vp = os.path.join(rdir, f"{h}-w{i}.replay")
                shutil.copy(rp, vp)
                with open(vp, "a") as g:
                    g.write(f"# {prop}: {lab}\n# python3 {V}/check.py --replay {b} {h} {vp}\n")
                k = [x for x in kn if x[1] == h and x[2] == lab]
                kf.append((k[0], h, lab)) if k else viol.append((h, lab, vp))
            elif rc in (77, 78) and not d["failures"]:
                bad.append(f"{h}: native run of a path model fails: {o[-300:]}")
            else:
                state["disagreed"] += 1

    elog = os.path.join(out, "engine.log")
    with open(elog, "w") as lf:
        pr = subprocess.Popen(cmd + bcs + [STD], env=ENV, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
    todo, stopped = list(hs), False
    while True:
        ended = pr.poll() is not None
        for h in list(todo):
            p = os.path.join(out, h + ".json")
            if os.path.exists(p):
                todo.remove(h)
                judge(h, json.load(open(p)))
        if ended:
            break
        if viol and tier == "quick":
            # a confirmed violation decides the check
            stopped = True
            os.killpg(pr.pid, 9)
            pr.wait()
            break
        time.sleep(0.2)
    log(open(elog).read()[-6000:])
    if pr.returncode and not stopped:
        raise SystemExit2(f"engine exited with {pr.returncode}")
    if not stopped:
        bad += [f"{h}: engine produced no result (killed or out of memory)" for h in todo]
    validated, disagreed, samples = state["validated"], state["disagreed"], state["samples"]
    goals = set().union(*[tab[h] for h in hs])
    got = {l for d in res for l in d["reach"]}
    if not viol:
        for l in sorted(goals - got):
            bad.append(f"vacuous: goal '{l}' was never reached")
    fns = sorted({re.sub(r"::\{closure.*", "", f) for d in res for f in d["repo_functions"]})
    summ = sorted({s for d in res for s in d["summaries"]})
    tot = lambda k: sum(d[k] for d in res)
    meta = PROPS[prop][2]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("forks"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "models_not_comparable_natively": disagreed,
            "samples": samples or [{"harness": d["harness"], "paths": d["paths"]} for d in res],
            "rule": "state = completed symbolic path or fork point, each standing for every input satisfying its path condition; transition = LLVM instruction executed symbolically; trace = solver model of a covered goal re-executed on the native build with the same outcome",
            "harnesses": [{k: d[k] for k in ("harness", "paths", "forks", "merges", "instructions", "assert_checks", "assert_queries", "queries", "solver_s", "unknowns", "wall_s", "reach", "asserts")} for d in res],
            "functions_encoded": len(fns),
            "functions_encoded_from_repo": fns,
            "assertions_checked": tot("assert_checks"),
            "queries_discharged": tot("queries"),
            "solver_s": round(tot("solver_s"), 3),
            "bounds": meta["bounds"],
            "exhaustive": not bad and not viol,
        },
        "assumptions": meta.get("assumptions", []) + COMMON + ["summary: " + s for s in summ],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    ev["coverage"]["build_s"] = round(tb, 2)
    ev["coverage"]["inconclusive"] = bad
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in dict.fromkeys(kf):
        print(f"KNOWN-FINDING: property={prop} {k[0][3]}")
    for h, lab, rp in viol:
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  {h}: {lab}")
    if viol:
        return 1
    if bad:
        for x in bad:
            print("INCONCLUSIVE " + x)
        return 2
    print(f"OK property={prop} tier={tier} harnesses={len(hs)} paths={tot('paths')} queries={tot('queries')} solver={tot('solver_s'):.1f}s native-validated={validated} wall={time.time() - t0:.1f}s")
    return 0


COMMON = [
    "contracts are executed from LLVM bitcode compiled from /repo's current tree for the host target (64-bit usize) instead of wasm32; release profile with overflow checks as in /repo",
    "blockchain environment (storage, address validation, queries to other contracts, transaction rollback) is the model in harness/src/lib.rs",
    "keccak256 is functionally consistent and collision-free; counterexamples are recomputed with the real function",
    "symbolic decimal text has leading zeros; the JSON and address parsers linked into the harness accept it (patched copies, see DESIGN.md)",
]

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit2 as e:
        print("INCONCLUSIVE", e)
        rc = 2
    sys.exit(rc)
