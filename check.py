#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: builds LLVM IR of the harness crate together with /repo's current sources,
executes the harness entries symbolically (engine/), lets SMT solvers decide every assertion, and
replays counterexamples natively on the real code before reporting them.

exit 0: held on everything explored; 1: VIOLATION (confirmed by a native replay);
2: no verdict (time or solver limits); 3: error of the check.
"""
import json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(VERIF, "work")
T0 = time.time()
sys.path.insert(0, os.path.join(VERIF, "tools"))
from table import PROPS, ENTRIES, FEATURES  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTFLAGS="")
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


def die(code, msg):
    print(msg)
    sys.stdout.flush()
    sys.exit(code)


def run(cmd, cwd, env, log):
    with open(log, "w") as f:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT)
    return p.returncode


def build(feat):
    """engine, IR and native replay binary; returns their paths"""
    os.makedirs(WORK, exist_ok=True)
    out, err = {}, []

    def go(name, cmd, cwd, tgt):
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(WORK, tgt))
        log = os.path.join(WORK, name + ".log")
        if run(cmd, cwd, env, log) != 0:
            err.append(name + " does not build:\n" + open(log).read()[-4000:])

    prep = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "prepare.py")], cwd=VERIF, capture_output=True, text=True)
    if prep.returncode != 0:
        die(3, "ERROR prepare: " + prep.stdout + prep.stderr)
    eng = os.path.join(VERIF, "engine")
    har = os.path.join(VERIF, "harness")
    for f in os.listdir(os.path.join(WORK, "t_ir", "release", "deps")) if os.path.isdir(os.path.join(WORK, "t_ir", "release", "deps")) else []:
        if f.startswith("vph") and f.endswith(".ll"):
            os.remove(os.path.join(WORK, "t_ir", "release", "deps", f))
    jobs = [
        ("engine", ["cargo", "build", "--release", "--offline"], eng, "t_engine"),
        ("ir", ["cargo", "rustc", "--release", "--offline", "--no-default-features", "--features", feat, "--lib", "--crate-type", "cdylib", "--", "--emit=llvm-ir",
                "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], har, "t_ir"),
        ("native", ["cargo", "build", "--offline", "--no-default-features", "--features", "native," + feat, "--bin", "replay"], har, "t_native"),
    ]
    ts = [threading.Thread(target=go, args=j) for j in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        die(3, "ERROR " + "\n".join(err))
    deps = os.path.join(WORK, "t_ir", "release", "deps")
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("vph") and f.endswith(".ll")]
    if not lls:
        # cargo considered everything fresh although the .ll was removed: rebuild the last crate
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(WORK, "t_ir"))
        os.utime(os.path.join(har, "src", "lib.rs"))
        if run(jobs[1][1], har, env, os.path.join(WORK, "ir.log")) != 0:
            die(3, "ERROR ir does not build")
        lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("vph") and f.endswith(".ll")]
    out["ll"] = max(lls, key=os.path.getmtime)
    out["engine"] = os.path.join(WORK, "t_engine", "release", "symir")
    out["native"] = os.path.join(WORK, "t_native", "debug", "replay")
    return out


def unesc(s):
    return re.sub(r"\\(.)", lambda m: "\n" if m.group(1) == "n" else m.group(1), s)


def parse(path):
    r = {"viol": [], "wit": [], "reach": {}, "assert": {}, "inc": [], "func": [], "by": {}, "num": {}, "end": False}
    for l in open(path, errors="replace"):
        l = l.rstrip("\n")
        k, _, rest = l.partition(" ")
        if k in ("viol", "wit"):
            a, _, b = rest.partition("\t")
            r[k].append((unesc(a), unesc(b)))
        elif k in ("reach", "assert"):
            a, b = rest.rsplit(" ", 1)
            r[k][int(a)] = int(b)
        elif k in ("by", "num"):
            a, b = rest.rsplit(" ", 1)
            r[k][a] = int(b)
        elif k == "inc":
            r["inc"].append(unesc(rest))
        elif k == "func":
            r["func"].append(unesc(rest))
        elif k == "end":
            r["end"] = True
    return r


def replay(native, entry, text, path):
    """runs the harness natively on the given values; returns the outcome"""
    with open(path, "w") as f:
        f.write("# replay: %s %s %s\n" % (native, entry, path))
        f.write(text)
    try:
        p = subprocess.run([native, entry, path], capture_output=True, text=True, timeout=60, cwd=WORK, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", ""
    o = p.stdout
    if "REPLAY-FAIL" in o or p.returncode < 0:
        m = [l for l in o.splitlines() if l.startswith("REPLAY-FAIL")]
        return "fail", (m or ["signal %d" % -p.returncode])[0]
    if "REPLAY-ASSUME-FALSE" in o:
        return "assume", ""
    if "REPLAY-OK" in o or "REPLAY-PANIC-ACCEPTED" in o:
        return "ok", ""
    return "error", o[-400:] + p.stderr[-400:]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rnd = random.Random(seed)
    P = PROPS[prop]
    b = build(FEATURES[prop])
    t_build = time.time() - T0
    budget = 760 if tier == "quick" else P.get("thorough_s", 6 * 3600)
    entries = list(P["quick"]) + (list(P.get("thorough", [])) if tier == "thorough" else [])
    ev_dir = os.path.join(VERIF, "evidence")
    rp_dir = os.path.join(ev_dir, "replays")
    os.makedirs(rp_dir, exist_ok=True)
    for f in os.listdir(rp_dir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rp_dir, f))
    scratch = os.path.join(WORK, "scratch")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    confirmed, unconfirmed, problems = [], [], []
    ents, funcs, samples = [], set(), []
    tot = {k: 0 for k in ("obligations", "queries", "unknown", "solver_ms", "ob_ms", "paths", "steps", "merges", "cases")}
    by = {}
    wit_ok = wit_n = 0
    for e in entries:
        left = budget - (time.time() - T0)
        if left < 5:
            problems.append("%s: not run, time budget used up" % e)
            continue
        E = ENTRIES[e]
        out = os.path.join(scratch, e + ".out")
        t = time.time()
        cmd = [b["engine"], b["ll"], e, "--out", out, "--scratch", scratch, "--jobs", str(os.cpu_count() or 8),
               "--time", str(int(min(left, E.get("time", 10**6)))), "--ob-time", str(E.get("ob_time", 90)), "--q-ms", str(E.get("q_ms", 4000))]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=left + 60, errors="replace")
            tail = p.stderr[-1500:]
            code = p.returncode
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-f", os.path.join(WORK, "t_engine")])
            problems.append("%s: engine exceeded its time" % e)
            continue
        if not os.path.exists(out) or code not in (0, 1, 2):
            problems.append("%s: engine failed (%s): %s" % (e, code, tail))
            continue
        r = parse(out)
        if not r["end"]:
            problems.append("%s: truncated report" % e)
        for what, vals in r["viol"]:
            name = "%s-%s-%d.txt" % (prop, e, len(confirmed) + len(unconfirmed))
            path = os.path.join(rp_dir, name)
            st, msg = replay(b["native"], e, "# %s\n" % what + vals, path)
            (confirmed if st == "fail" else unconfirmed).append((e, what, path, st, msg))
        for x in r["inc"][:5]:
            problems.append("%s: %s" % (e, x[:400]))
        if not r["viol"]:
            for k in E["reach"]:
                if not r["reach"].get(k):
                    problems.append("%s: point %d is never reached (vacuous)" % (e, k))
        # validation of the encoding: values that the engine says pass are run on the real code
        top = max(E["reach"])
        wits = [w for w in r["wit"] if w[0] == str(top)] or r["wit"]
        rnd.shuffle(wits)
        for k, w in wits[: E.get("wits", 6)]:
            path = os.path.join(scratch, "wit.txt")
            st, msg = replay(b["native"], e, w, path)
            wit_n += 1
            if st == "ok":
                wit_ok += 1
                if len(samples) < 3:
                    samples.append({"entry": e, "values": [l for l in w.splitlines() if l][:30], "native": "passes"})
            elif st == "fail" and not r["viol"]:
                unconfirmed.append((e, "natively failing witness", path, st, msg))
        funcs |= set(f for f in r["func"])
        for k in tot:
            tot[k] += r["num"].get(k, 0)
        for k, v in r["by"].items():
            by[k] = by.get(k, 0) + v
        ents.append({"entry": e, "what": E["what"], "wall_s": round(time.time() - t, 1), "paths": r["num"].get("paths", 0), "obligations": r["num"].get("obligations", 0),
                     "cases": r["num"].get("cases", 0), "points_reached": {str(k): v for k, v in sorted(r["reach"].items())},
                     "violations": len(r["viol"]), "inconclusive": len(r["inc"])})
    shutil.rmtree(scratch, ignore_errors=True)
    repo_funcs = sorted(f for f in funcs if "y86_sim" in f or "y86_pipe" in f or P.get("func_pat", "y86") in f)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the compiler's LLVM IR of the real code; every assertion is decided by SMT (z3/cvc5) for all values within the bounds. " + P["explain"],
            "bounds": P["bounds"],
            "entries": ents,
            "functions_encoded": len(funcs),
            "functions_encoded_of_repo": repo_funcs[:400],
            "obligations": tot["obligations"],
            "obligations_decided_by": by,
            "queries": tot["queries"],
            "queries_without_answer": tot["unknown"],
            "solver_s": round((tot["solver_ms"] + 0) / 1000.0, 1),
            "obligation_s": round(tot["ob_ms"] / 1000.0, 1),
            "paths": tot["paths"], "ir_steps": tot["steps"], "state_merges": tot["merges"], "case_splits": tot["cases"],
            "witnesses_replayed_natively": wit_n, "witnesses_confirmed": wit_ok,
            "build_s": round(t_build, 1),
            "samples": samples,
            "no_verdict": problems[:20],
        },
        "assumptions": P["assumptions"],
        "wall_s": round(time.time() - T0, 1),
        "violations": len(confirmed),
    }
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)
    print("%s %s: %d entries, %d obligations, %d paths, %d queries, solver %.1fs, %d/%d witnesses confirmed natively, %.0fs" % (
        prop, tier, len(ents), tot["obligations"], tot["paths"], tot["queries"], tot["solver_ms"] / 1000.0, wit_ok, wit_n, time.time() - T0))
    for e, what, path, st, msg in confirmed[:6]:
        print("  %s: %s; native replay: %s" % (e, what, msg))
    if confirmed:
        die(1, "VIOLATION property=%s replay=%s" % (prop, confirmed[0][2]))
    for e, what, path, st, msg in unconfirmed[:6]:
        print("UNCONFIRMED %s: %s (%s %s) %s" % (e, what, st, msg, path))
    if unconfirmed:
        die(3, "ERROR a counterexample does not replay on the real code")
    if problems:
        for x in problems[:8]:
            print("NO-VERDICT " + x)
        die(2, "no verdict")
    sys.exit(0)


main()
