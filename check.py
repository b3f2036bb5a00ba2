#!/usr/bin/env python3
"""check.py Cxx  -- decide one property against /repo's current working tree.

1. gocv (the contract verifier) generates and discharges every obligation of the contracts tagged
   with the property, from /repo's current source.
2. the harness of the property (bounded executions of the real code against an executable oracle) replays
   the verifier's counterexample values and searches for a concrete failing input.
Exit 0: everything held. Exit 1 with a VIOLATION line otherwise.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def repo_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout.decode()
    env = dict(kv.split("=", 1) for kv in out.split("\0") if "=" in kv)
    return env


def known_findings(prop):
    known = []
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            known.append((m.group(2), m.group(3)))
    return known


# proved by the thorough check only: the quick one relies on their contracts (the harness runs them all the same)
SKIP_QUICK = {"C06": "constrain,getPackageDependencies,GetPackageWithDependencies,disqualifyConflicts,filterPackages"}


def run_gocv(prop, tier, work):
    rep = os.path.join(work, "gocv.json")
    ms = "15000" if tier == "quick" else "60000"
    invms = "4000" if tier == "quick" else "15000"
    skip = []
    if tier == "quick" and prop in SKIP_QUICK:
        skip, invms = ["-skip", SKIP_QUICK[prop]], "1000"
    gocv = os.path.join(VERIF, "bin", "gocv")
    if not os.path.exists(gocv):
        sh(["bash", os.path.join(VERIF, "setup.sh")])
    t0 = time.time()
    try:
        p = sh([gocv, "-prop", prop, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-ms", ms, "-invms", invms, "-o", rep] + skip,
               timeout=500 if tier == "quick" else 3000)
        text = p.stdout
    except subprocess.TimeoutExpired:
        text = "verifier time limit"
    try:
        r = json.load(open(rep))
    except Exception:
        r = {"functions": [], "obligations": 0, "proved": 0, "failed": 0, "errors": ["verifier produced no report: " + text[-2000:]]}
    r["text"] = text
    r["secs"] = time.time() - t0
    return r


def model_hints(r):
    """string and integer values of the verifier's counterexamples, replayed by the harness"""
    hints = []
    for f in r.get("functions") or []:
        for o in f.get("Obls") or []:
            for s in re.findall(r'"((?:[^"]|"")*)"', o.get("model") or ""):
                s = s.replace('""', '"')
                s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
                if s not in hints and len(s) < 2000:
                    hints.append(s)
    return hints[:200]


def run_harness(prop, tier, seed, work, hints):
    res = {"ran": [], "not_run": [], "evaluations": 0, "distinct": 0, "samples": [], "fails": [], "log": ""}
    env = repo_env()
    hf = os.path.join(work, "hints.json")
    json.dump(hints, open(hf, "w"))
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_HINTS=hf, TMPDIR=work)
    env["GOFLAGS"] = "-mod=mod"
    for src in sorted(glob.glob(os.path.join(VERIF, "harness", prop + "_*.go"))):
        text = open(src).read()
        pkg = re.search(r"^// pkg: (\S+)", text, re.M).group(1)
        name = re.search(r"^package (\w+)", text, re.M).group(1)
        base = os.path.splitext(os.path.basename(src))[0]
        common = os.path.join(work, base + "_common.go")
        open(common, "w").write(open(os.path.join(VERIF, "harness", "common.go.tmpl")).read().replace("package PKG", "package " + name))
        rep = {os.path.join(REPO, pkg, "zz_verif_common_test.go"): common,
               os.path.join(REPO, pkg, "zz_verif_test.go"): src}
        # support files (also listed explicitly): // with: file.go
        for w in re.findall(r"^// with: (\S+)", text, re.M):
            rep[os.path.join(REPO, pkg, "zz_verif_" + w.replace(".go", "_test.go"))] = os.path.join(VERIF, "harness", w)
        # the repository's own tests are not part of this check
        for t in glob.glob(os.path.join(REPO, pkg, "*_test.go")):
            rep.setdefault(t, "")
        ov = os.path.join(work, base + "_overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        out = os.path.join(work, base + "_out.json")
        env["VERIF_OUT"] = out
        lim = 200 if tier == "quick" else 1500
        scratch = os.path.join(work, "scratch")
        os.makedirs(scratch, exist_ok=True)
        binp = os.path.join(work, base + ".test")
        p = sh(["go", "test", "-vet=off", "-overlay", ov, "-c", "-o", binp, "./" + pkg], cwd=REPO, env=env)
        if p.returncode != 0:
            res["not_run"].append(base)
            res["log"] += f"== {base}: harness does not compile against the current source\n" + p.stdout[-3000:] + "\n"
            continue
        cmd = [binp, "-test.run", "^TestVerif", "-test.v", f"-test.timeout={lim}s"]
        unpriv = "// unprivileged" in text
        try:
            cwd = os.path.join(REPO, pkg)
            if unpriv:
                # run where an escaped call can reach nothing real: an unprivileged user with scratch files only
                os.chmod(work, 0o755)
                for f in (binp, hf):
                    os.chmod(f, 0o755)
                os.chmod(scratch, 0o777)
                env2 = dict(env, HOME=scratch, TMPDIR=scratch, VERIF_OUT=os.path.join(scratch, "out.json"))
                cmd = ["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups"] + cmd
                p = sh(cmd, cwd=scratch, env=env2, timeout=lim + 30)
                if os.path.exists(env2["VERIF_OUT"]):
                    shutil.copyfile(env2["VERIF_OUT"], out)
            else:
                p = sh(cmd, cwd=scratch, env=env, timeout=lim + 30)
        except subprocess.TimeoutExpired:
            res["fails"].append({"key": "hang", "desc": "the real code did not return within the time limit", "input": base})
            continue
        res["log"] += f"== {base}\n" + p.stdout[-6000:] + "\n"
        lines = open(out).read().splitlines() if os.path.exists(out) else []
        if len(lines) < len(re.findall(r"^func TestVerif", text, re.M)):
            # the process died: a crash of the code under test that the harness could not contain
            res["fails"].append({"key": "crash", "desc": "harness process died while running the real code", "input": p.stdout[-3000:]})
        res["ran"].append(base)
        for o in map(json.loads, lines):
            res["evaluations"] += o["evaluations"]
            res["distinct"] += o["distinct"]
            res["samples"] += o["samples"] or []
            res["fails"] += o["fails"] or []
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = decide(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, work, t0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    b = sh(["go", "build", "./..."], cwd=REPO, env=repo_env())
    g = run_gocv(prop, tier, work)
    hints = model_hints(g)
    h = run_harness(prop, tier, seed, work, hints)
    known = known_findings(prop)
    known_keys = {k for k, _ in known}
    fails = [f for f in h["fails"] if f["key"] not in known_keys]
    failed_obls = []
    n, proved = 0, 0
    by, kinds = {}, {}
    funcs = []
    for f in g.get("functions") or []:
        obls = f.get("Obls") or []
        fp = sum(1 for o in obls if o["status"] == "proved")
        funcs.append({"name": f["func"], "kind": f["kind"], "obligations": len(obls), "discharged": fp, "inlined": f.get("inlined") or [],
                      "invariant_queries": f.get("invariant_queries", 0), **({"error": f["err"]} if f.get("err") else {})})
        n += len(obls)
        proved += fp
        for o in obls:
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
            if o["status"] == "proved":
                by[o.get("by", "?")] = by.get(o.get("by", "?"), 0) + 1
            elif o["name"] not in known_keys:
                failed_obls.append(o)
    errors = list(g.get("errors") or [])
    if n == 0:
        errors.append("no obligation was generated")
    code = 0
    lines = []
    replay = os.path.join(VERIF, "evidence", prop + "-replay.txt")
    if fails:
        code = 1
        with open(replay, "w") as fh:
            fh.write(f"property {prop}: failing input on the real code\n")
            for f in fails:
                fh.write(f"\n[{f['key']}] {f['desc']}\ninput: {f['input']}\n")
            write_obls(fh, failed_obls, errors)
            fh.write("\nreproduce: VERIF_SEED=%d python3 %s/check.py %s\n\n%s" % (seed, VERIF, prop, h["log"]))
        lines.append(f"VIOLATION property={prop} replay={replay}")
    elif failed_obls or errors:
        code = 1
        with open(replay, "w") as fh:
            fh.write(f"property {prop}: obligations the verifier does not accept; no failing input found in {h['evaluations']} executions\n")
            write_obls(fh, failed_obls, errors)
            fh.write("\n" + h["log"] + "\n" + g.get("text", ""))
        lines.append(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
    else:
        if os.path.exists(replay):
            os.unlink(replay)
        hit = {f["key"] for f in h["fails"]}
        for k, d in known:
            if k in hit:
                lines.append(f"KNOWN-FINDING: property={prop} {k} {d}")
    trusted = ["gocv's translation of go/ssa to first-order obligations (this repository, /verif/gocv)", "golang.org/x/tools/go/ssa and the Go type checker",
               "SMT back ends z3 5.3, z3 4.8.12, cvc5 1.1.2"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": n, "discharged": proved,
            "checker_cmd": f"bin/gocv -prop {prop} -repo /repo -contracts contracts",
            "trusted_base": trusted,
            "functions_under_contract": funcs,
            "obligation_kinds": kinds,
            "discharged_by": by,
            "solver_seconds": g.get("solver_seconds"),
            "invariant_queries": g.get("invariant_queries", 0),
            "axioms": g.get("axioms") or [],
            "errors": errors,
            "bounded_replay": {"label": "bounded; executions of the real code, never counted as proved", "ran": h["ran"], "not_run": h["not_run"],
                               "evaluations": h["evaluations"], "distinct_nontrivial": h["distinct"], "counterexample_values_replayed": len(hints),
                               "samples": h["samples"][:6], "failing": [f["key"] for f in h["fails"]]},
        },
        "assumptions": g.get("assumptions") or [],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails) + len(failed_obls) + len(errors) if code else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {proved}/{n} obligations discharged over {len(funcs)} contracts, {h['evaluations']} bounded executions, {time.time()-t0:.1f}s")
    if h["not_run"]:
        print(f"{prop}: harness not run (does not compile against this source): {', '.join(h['not_run'])}")
    for f in fails[:5]:
        print(f"  failing input [{f['key']}] {f['desc']}: {f['input'][:300]}")
    for o in failed_obls[:8]:
        print(f"  {o['status']}: {o['name']} at {o['pos']}")
    for e in errors[:8]:
        print("  " + e[:400])
    for l in lines:
        print(l)
    if b.returncode != 0:
        print("note: /repo does not build")
    return code


def write_obls(fh, failed, errors):
    for e in errors:
        fh.write("\nverifier: " + e + "\n")
    for o in failed:
        fh.write(f"\nfailed obligation: {o['name']}\n  kind {o['kind']}, at {o['pos']}, status {o['status']} ({o.get('by','')}, {o.get('reason','')})\n")
        if o.get("model"):
            fh.write("  verifier output:\n" + o["model"][:20000] + "\n")


if __name__ == "__main__":
    main()
