#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--keep]

Decides one property by symbolic execution of the compiled code of /repo (see DESIGN.md):
builds the harness group against /repo's current tree, extracts LLVM IR, runs the executor,
replays every counterexample natively, cross-checks sampled paths natively, writes evidence.
exit 0 held, 1 violated (VIOLATION line), 3 no verdict."""
import sys, os, json, subprocess, time, glob, fcntl, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS, DEFAULT_SUMMARY, ASSUME
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.82.0", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"): ENV.pop(k, None)
H = os.path.join(V, "harness")
T = os.path.join(H, "target")

class NoVerdict(Exception): pass

def sh(cmd, what, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)
    if r.returncode: raise NoVerdict("%s failed:\n%s" % (what, r.stdout[-4000:]))
    return r.stdout

def build_ir(group, tmp):
    td = os.path.join(T, "ll-" + group)
    for f in glob.glob(td + "/release/deps/vh-*.ll"): os.unlink(f)
    for f in glob.glob(td + "/release/.fingerprint/vh-*"): shutil.rmtree(f)
    sh(["cargo", "rustc", "--offline", "--release", "--lib", "--features", group, "--crate-type", "staticlib", "--target-dir", td,
        "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], "building the harness", cwd=H)
    ll = glob.glob(td + "/release/deps/vh-*.ll")
    if len(ll) != 1: raise NoVerdict("expected one .ll file, got %r" % ll)
    out = os.path.join(tmp, group + ".ll")
    with open(out, "w") as f: subprocess.run(["perl", os.path.join(V, "irfix.pl"), ll[0]], stdout=f, check=True)
    return out

def build_native(group):
    td = os.path.join(T, "nat-" + group)
    out = {}
    for prof, d in (("dev", "debug"), ("relrep", "relrep")):
        sh(["cargo", "build", "--offline", "--profile", prof, "--features", "native," + group, "--bin", "replay", "--target-dir", td], "building the replayer", cwd=H)
        out[prof] = os.path.join(td, d, "replay")
    return out

def refs_file(name):
    """One reference file, or several ("a.tab+b.tab") joined, each table taken from the first that has it."""
    if not name: return None
    if "+" not in name: return os.path.join(V, "refs", name)
    seen, out = set(), []
    for n in name.split("+"):
        keep = True
        for l in open(os.path.join(V, "refs", n)):
            if l.startswith("T "): i = l.split()[1]; keep = i not in seen; seen.add(i)
            if keep: out.append(l)
    os.makedirs(T, exist_ok=True)
    path = os.path.join(T, "refs-" + name.replace("+", "-"))
    tmp = "%s.%d" % (path, os.getpid())
    with open(tmp, "w") as f: f.writelines(out)
    os.rename(tmp, path)
    return path

def replay(exe, refs, runs, limit=300):
    """runs: list of (harness, inputs). Returns one outcome string per run; 'signal N' when the process died."""
    res = []
    i = 0
    while i < len(runs):
        inp = "".join("%s %s\n" % (h, ",".join(map(str, v))) for h, v in runs[i:])
        try:
            p = subprocess.run([exe, refs or "-"], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
            lines = p.stdout.splitlines(); rc = p.returncode
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b"").decode().splitlines() if isinstance(e.stdout, bytes) else (e.stdout or "").splitlines(); rc = "timeout"
        res += lines
        i += len(lines)
        if i < len(runs):
            res.append("died:%s" % rc); i += 1
    return res

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    C = CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vh-" + pid + "-")
    rc = 3
    try:
        rc = check(pid, C, tier, seed, tmp, t0)
    except NoVerdict as e:
        print("NO VERDICT for %s: %s" % (pid, e))
        rc = 3
    finally:
        if "--keep" not in sys.argv: shutil.rmtree(tmp, ignore_errors=True)
        else: print("kept", tmp)
    sys.exit(rc)

def check(pid, C, tier, seed, tmp, t0):
    sh([os.path.join(V, "engine", "build.sh")], "building the executor")
    parts = C["parts"]
    known_file = json.load(open(os.path.join(V, "known-findings.json")))
    listed = {k["key"]: k for k in known_file["findings"] if k["property"] == pid}
    limit_total = C.get("limit", {}).get(tier, 600 if tier == "quick" else 3000)
    entries_out, viols, knowns, problems, samples_ok, samples = [], [], {}, [], 0, []
    built = {}
    for pi, part in enumerate(parts):
        names = dict(part["quick"])
        if tier == "thorough": names.update(part.get("thorough", {}))
        for n in part.get("quick_only", []):
            if tier == "thorough": names.pop(n, None)
        if not names: continue
        group = part["group"]
        os.makedirs(T, exist_ok=True)
        with open(os.path.join(T, group + ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if group not in built: built[group] = (build_ir(group, tmp), build_native(group))
            ll, exe = built[group]
        refs = refs_file(part.get("refs"))
        js = os.path.join(tmp, "%s-%d.json" % (group, pi))
        left = limit_total - (time.time() - t0)
        cmd = [os.path.join(V, "engine", "build", "rsym"), ll, "--entries", ",".join(names), "--jobs", "8", "--out", js, "--scratch", tmp,
               "--limit", str(part.get("limit", {}).get(tier, max(left, 30))), "--samples", str(part.get("samples", 6)), "--seed", str(seed), "--max-viol", "4"]
        for s in part.get("summary", DEFAULT_SUMMARY): cmd += ["--summary", s]
        if refs: cmd += ["--refs", refs]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        sys.stdout.write(p.stdout); sys.stdout.flush()
        if p.returncode not in (0, 1, 2): raise NoVerdict("the executor stopped with status %d" % p.returncode)
        J = json.load(open(js))
        for e in J["entries"]:
            e["group"] = group
            spec = names[e["entry"]]
            e["bounds"] = spec["bounds"]
            entries_out.append(e)
            for v in e["violations"]: viols.append((group, exe, refs, e["entry"], v))
            for k, vals in e["known"].items():
                knowns.setdefault(k, []).append((group, exe, refs, e["entry"], vals))
            if e["status"] == "unknown": problems.append("%s: %s" % (e["entry"], e["unknown"]))
            if e["status"] == "held":
                for c in spec.get("covers", [1]):
                    if c not in e["covers"]: problems.append("%s: cover %d was never reached (vacuous)" % (e["entry"], c))
                vol = spec.get("volume")
                if vol and not e["relational"]:
                    got = e["inputs_covered"] + e["inputs_dropped"]
                    if abs(got - vol) > 1e-6 * vol: problems.append("%s: explored %.17g inputs, expected %.17g" % (e["entry"], got, vol))
            # cross-check sampled paths against the native build
            S = [x for x in e["samples"]]
            if S:
                for prof in exe:
                    got = replay(exe[prof], refs, [(e["entry"], x["inputs"]) for x in S])
                    for x, g in zip(S, got):
                        if x["panic"] and prof == "relrep" and part.get("debug_panics"): continue
                        want = "ok %d %d %d" % (x["checks"], x["covers"], x["panic"])
                        if g == want: samples_ok += 1
                        elif e["status"] != "violated": problems.append("%s %s: executor says '%s', native %s run says '%s'" % (e["entry"], x["inputs"], want, prof, g))
                samples += [{"entry": e["entry"], "inputs": ["%X" % y for y in x["inputs"]], "checks": x["checks"]} for x in S[:3]]
    rc = 0
    confirmed = 0
    for group, exe, refs, entry, v in viols:
        outs = {p: replay(exe[p], refs, [(entry, v["inputs"])])[0] for p in exe}
        bad = {p: o for p, o in outs.items() if not o.startswith("ok") and not o.startswith("assume")}
        if bad:
            confirmed += 1
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            path = os.path.join(V, "replays", "%s-%s-%d.json" % (pid, entry, confirmed))
            exe_cmd = "cd %s && cargo +1.82.0 build --offline --features native,%s --bin replay --target-dir target/nat-%s && echo '%s %s' | target/nat-%s/debug/replay %s" % (H, group, group, entry, ",".join(map(str, v["inputs"])), group, refs or "-")
            json.dump({"property": pid, "entry": entry, "kind": v["kind"], "message": v["msg"], "inputs": v["inputs"], "inputs_hex": ["%X" % x for x in v["inputs"]],
                       "native": outs, "stack": v["stack"], "reproduce": exe_cmd}, open(path, "w"), indent=1)
            print("%s: %s: %s on inputs %s; native: %s" % (entry, v["kind"], v["msg"], " ".join("%X" % x for x in v["inputs"]), outs))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        else:
            problems.append("%s: counterexample %s (%s: %s) does not reproduce natively: %s" % (entry, v["inputs"], v["kind"], v["msg"], outs))
    known_seen = []
    for k, occ in sorted(knowns.items()):
        group, exe, refs, entry, vals = occ[0]
        if k in listed:
            print("KNOWN-FINDING: property=%s %s (%s on %s)" % (pid, listed[k]["what"], entry, " ".join("%X" % x for x in vals)))
            known_seen.append(k)
        else:
            problems.append("harness marks %s as known but it is not in known-findings.json" % k)
    tot = lambda k: sum(e[k] for e in entries_out)
    fns = sorted({f for e in entries_out for f in e["repo_functions"]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": confirmed,
          "coverage": {
              "explanation": "Symbolic execution of the LLVM IR rustc emits for /repo's current source; every feasible path within the bounds is explored and each assertion decided for all inputs on that path; value-set splits are certified by z3 (unsat of the negation).",
              "states": tot("paths") + tot("forks"), "transitions": tot("domain_branches") + tot("solver_branches") + tot("forks"),
              "traces_validated_against_impl": samples_ok, "samples": samples[:40],
              "paths": tot("paths"), "instructions_executed_symbolically": tot("instructions"), "assertions_decided": tot("asserts"),
              "solver": {"name": "z3", "queries": tot("z3_queries"), "certificates": tot("z3_certificates"), "unsat": tot("z3_unsat"), "sat": tot("z3_sat"), "time_s": round(tot("z3_time_s"), 2)},
              "functions_encoded": fns, "known_findings_seen": known_seen,
              "entries": [{k: e[k] for k in ("entry", "status", "bounds", "paths", "asserts", "z3_queries", "wall_s", "inputs_covered", "inputs_dropped")} for e in entries_out],
              "outside": C["outside"], "problems": problems},
          "assumptions": ASSUME + C.get("assumptions", [])}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for p in problems: print("PROBLEM:", p)
    if rc == 0 and problems: raise NoVerdict("; ".join(problems)[:2000])
    if rc == 0: print("%s held: %d paths, %d assertions, %d z3 queries, %d sampled paths agree natively, %.1fs" % (pid, tot("paths"), tot("asserts"), tot("z3_queries"), samples_ok, time.time() - t0))
    return rc

main()
