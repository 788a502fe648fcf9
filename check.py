#!/usr/bin/env python3
"""Decides one property: check.py CNN [quick|thorough]; check.py --setup; check.py --replay FILE; check.py --run ENTRY ARGS TAGS"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import configs
BUILD = os.path.join(HERE, ".build")
REPO = "/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.75.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=BUILD + "/target",
           RUSTFLAGS="--cfg phoenix_verif -C no-vectorize-loops -C no-vectorize-slp", CARGO_INCREMENTAL="0")
T0 = time.time()
def fail(msg):
    print("ERROR: " + msg); sys.stdout.flush(); sys.exit(2)
def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, n in os.walk(p) for f in n)
        for f in fs:
            if not os.path.exists(f): continue
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()
def build():
    """engine and bitcode + shared library of the harness linked with the current tree of /repo"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    eh = tree_hash([HERE + "/engine"]); sh = tree_hash([REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock", HERE + "/harness/src", HERE + "/harness/Cargo.toml", HERE + "/harness/Cargo.lock"])
    rd = lambda f: open(f).read() if os.path.exists(f) else ""
    procs = []
    if rd(BUILD + "/engine.hash") != eh:
        procs.append(("engine", subprocess.Popen(["bash", HERE + "/engine/build.sh", BUILD + "/px"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), BUILD + "/engine.hash", eh))
    if rd(BUILD + "/src.hash") != sh:
        if os.path.exists(BUILD + "/src.hash"): os.unlink(BUILD + "/src.hash")
        if os.path.isdir(BUILD + "/target"): subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "phoenix-v1", "-p", "pxh"], cwd=HERE + "/harness", env=ENV, capture_output=True)
        for f in glob.glob(BUILD + "/target/release/deps/*pxh*"): os.unlink(f)
        procs.append(("harness", subprocess.Popen(["cargo", "rustc", "--release", "--offline", "--locked", "--", "--emit=llvm-bc,link"], cwd=HERE + "/harness", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), BUILD + "/src.hash", sh))
    for name, p, hf, hv in procs:
        out = p.communicate()[0]
        if p.returncode: fail("build of the %s failed:\n%s" % (name, "\n".join([l for l in out.splitlines() if "error" in l][:10] + out.splitlines()[-25:])))
        if name == "harness":
            bc = glob.glob(BUILD + "/target/release/deps/pxh*.bc"); so = glob.glob(BUILD + "/target/release/deps/libpxh*.so")
            if len(bc) != 1 or len(so) != 1: fail("bitcode not found")
            shutil.copy(bc[0], BUILD + "/pxh.bc"); shutil.copy(so[0], BUILD + "/libpxh.so")
        open(hf, "w").write(hv)
    fcntl.flock(lock, fcntl.LOCK_UN)
def native(entry, args, tags, cases):
    """runs input vectors on the compiled code"""
    r = subprocess.run([BUILD + "/px/replay", BUILD + "/libpxh.so", entry, args, tags], input="".join(" ".join(map(str, c)) + "\n" for c in cases), capture_output=True, text=True)
    out = []
    for l in r.stdout.splitlines():
        m = re.match(r"end (\w+) tag=(\d+) fails=([\d,]*) used=(\d+) trace=([\d,]*)", l)
        out.append(dict(end=m[1], tag=int(m[2]), fails=[int(x) for x in m[3].split(",") if x], used=int(m[4]), trace=[x for x in m[5].split(",") if x]))
    if len(out) != len(cases): fail("native replay gave %d answers for %d cases: %s" % (len(out), len(cases), r.stderr[-300:]))
    return out
def px(entry, args, tags, tlimit, every, jobs=None):
    d = tempfile.mkdtemp(prefix="px", dir=BUILD)
    cmd = [BUILD + "/px/px", "--bc", BUILD + "/pxh.bc", "--entry", entry, "--out", d, "--jobs", str(jobs or os.cpu_count() or 4), "--args", args, "--tags", tags, "--time", str(int(tlimit)), "--samples", "6", "--sample-every", str(every)]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try: txt = p.communicate(timeout=tlimit + 30)[0]
    except subprocess.TimeoutExpired: p.terminate(); p.wait(); shutil.rmtree(d, True); fail("executor did not finish")
    tot, ch, cov, viol, pl, samples, fns = {}, {}, {}, [], {}, [], set()
    for f in glob.glob(d + "/w*.json"):
        try: j = json.load(open(f))
        except ValueError: fail("unreadable executor output " + f)
        for k, v in j.items():
            if isinstance(v, (int, float)): tot[k] = max(tot.get(k, 0), v) if k in ("smax", "maxpc") else tot.get(k, 0) + v
        for k, v in j["checks"].items(): ch[int(k)] = [a + b for a, b in zip(ch.get(int(k), [0, 0, 0]), v)]
        for k, v in j["covers"].items(): cov[int(k)] = cov.get(int(k), 0) + v
        for k, v in j["panicloc"].items(): pl[k] = pl.get(k, 0) + v
        viol += j["violations"]; samples += j["samples"]; fns |= set(j["functions"])
    shutil.rmtree(d, True)
    return dict(rc=p.returncode, err=txt[-600:], tot=tot, checks=ch, covers=cov, viol=viol, panics=pl, samples=samples, functions=fns, wall=time.time() - t)
def reproduces(entry, args, tags, v):
    r = native(entry, args, tags, [v["vals"]])[0]
    if v["tag"] in r["fails"]: return True, r
    if v["loc"].startswith("panic") and r["end"] in ("panic", "crash") and r["tag"] == v["tag"]: return True, r
    if v["loc"].startswith("no end") and r["end"] in ("hang", "crash", "panic"): return True, r
    return False, r
def known(prop):
    out = []
    f = HERE + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) entry=(\S+) tag=(\d+) (.*)", l)
            if m and m[1] == prop: out.append((m[2], int(m[3]), m[4].strip()))
    return out
def check(prop, tier):
    build()
    tb = time.time() - T0
    tag = str(int(prop[1:])); ev = HERE + "/evidence"; os.makedirs(ev, exist_ok=True)
    runs = configs.runs(prop, tier)
    budget = 840 if tier == "quick" else 6 * 3600
    agg = dict(paths=0, instr=0, queries=0, unsat=0, sat=0, external=0, lia=0, canon=0, simp=0, stime=0.0, forks=0, evaluated=0, solver=0)
    fns, per, samples, validated, covers, panics, tags_seen = set(), [], [], 0, {}, {}, {}
    kn, hit = known(prop), []
    def evidence(nviol):
        cov = dict(states=agg["paths"], transitions=agg["forks"] + agg["paths"], traces_validated_against_impl=validated, samples=samples[:4],
                   rule="a state is one completed symbolic path of the compiled code (a set of inputs described by its path condition); transitions are the branch decisions that separate them",
                   functions_encoded=len(fns), functions=sorted(fns), bounds=[r["bounds"] for r in per], runs=per,
                   assertions_evaluated_on_paths=agg["evaluated"], assertions_sent_to_solver=agg["solver"], assertion_tags={str(k): v for k, v in sorted(tags_seen.items())},
                   solver_queries=agg["queries"] + agg["lia"], queries_unsat=agg["unsat"], queries_sat=agg["sat"], portfolio_queries=agg["external"], decided_by_normal_form=agg["canon"] + agg["simp"],
                   solver_seconds=round(agg["stime"], 2), instructions=agg["instr"], situations_covered={str(k): v for k, v in sorted(covers.items())}, panicking_paths=panics, build_seconds=round(tb, 1))
        json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", coverage=cov, assumptions=configs.ASSUME + configs.assumptions(prop), wall_s=round(time.time() - T0, 2), violations=nviol), open("%s/%s.json" % (ev, prop), "w"), indent=1)
    for r in runs:
        entry, args = r["entry"], r["args"]
        left = budget - (time.time() - T0)
        if left < 10: evidence(0); fail("time budget used up before %s %s" % (entry, args))
        o = px(entry, args, tag, left, r.get("every", 997))
        for v in o["viol"]:
            if v["tag"] >= 9900: evidence(0); fail("harness assertion %s at %s in %s %s; values %s" % (v["tag"], v["loc"], entry, args, " ".join(v["vals"])))
        bad = [v for v in o["viol"]]
        for v in bad:
            okv, nat = reproduces(entry, args, tag, v)
            if not okv: evidence(0); fail("counterexample does not reproduce natively: %s %s tag %d at %s: %s; values %s" % (entry, args, v["tag"], v["loc"], nat["end"], " ".join(v["vals"])))
            k = [x for x in kn if x[0] == entry and x[1] == v["tag"]]
            if k: hit += k; continue
            path = "%s/replay-%s-%d.json" % (ev, prop, v["tag"])
            json.dump(dict(property=prop, entry=entry, args=args, tags=tag, tag=v["tag"], loc=v["loc"], vals=v["vals"], native=nat, meaning=configs.tag_text(v["tag"])), open(path, "w"), indent=1)
            print("counterexample: %s %s assertion %d (%s) at %s" % (entry, args, v["tag"], configs.tag_text(v["tag"]), v["loc"]))
            print("inputs: " + " ".join(v["vals"])[:1500])
            print("native execution: end=%s failing assertions=%s" % (nat["end"], nat["fails"]))
            evidence(1)
            print("VIOLATION property=%s replay=%s" % (prop, path)); sys.stdout.flush(); sys.exit(1)
        if o["rc"] != 0: evidence(0); fail("executor: " + o["err"])
        if o["tot"].get("incomplete", 0) and not bad: evidence(0); fail("exploration incomplete (%d open states) in %s %s" % (o["tot"]["incomplete"], entry, args))
        # compiled code agrees with the executor on sampled paths
        if o["samples"]:
            res = native(entry, args, tag, [s["vals"] for s in o["samples"]])
            for s, n in zip(o["samples"], res):
                if n["end"] not in ("ok", "panic") or n["trace"] != s["trace"]: evidence(0); fail("executor and compiled code disagree in %s %s: values %s: %s vs %s" % (entry, args, " ".join(s["vals"]), n["end"] + " " + ",".join(n["trace"]), ",".join(s["trace"])))
                validated += 1
            samples += [dict(entry=entry, args=args, inputs=s["vals"], observed=s["trace"]) for s in o["samples"][:1]]
        miss = [c for c in r.get("covers", []) if not o["covers"].get(c)]
        if miss: evidence(0); fail("situations %s never reached in %s %s" % (miss, entry, args))
        own = {k: v for k, v in o["checks"].items() if k // 100 == int(tag)}
        if not own and not r.get("panics_only"): evidence(0); fail("no assertion of this property evaluated in %s %s" % (entry, args))
        for k in agg:
            if k in o["tot"]: agg[k] += o["tot"][k]
        for k, v in own.items(): agg["evaluated"] += v[0]; agg["solver"] += v[2]; tags_seen[k] = [a + b for a, b in zip(tags_seen.get(k, [0, 0, 0]), v)]
        for k, v in o["covers"].items(): covers[k] = covers.get(k, 0) + v
        for k, v in o["panics"].items(): panics[k] = panics.get(k, 0) + v
        fns |= o["functions"]
        per.append(dict(entry=entry, args=args, bounds=r["bounds"], paths=o["tot"].get("paths", 0), queries=o["tot"].get("queries", 0) + o["tot"].get("lia", 0), solver_seconds=round(o["tot"].get("stime", 0), 2), wall_s=round(o["wall"], 1)))
        print("%s %s: %d paths, %d assertions, %d queries, %.0f s" % (entry, args, o["tot"].get("paths", 0), sum(v[0] for v in own.values()), o["tot"].get("queries", 0) + o["tot"].get("lia", 0), o["wall"])); sys.stdout.flush()
    evidence(0)
    for e, t, what in dict.fromkeys(hit): print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("held: %s %s, %d paths, %d assertions, %.0f s" % (prop, tier, agg["paths"], agg["evaluated"], time.time() - T0))
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--setup": build(); print("built in %.0f s" % (time.time() - T0))
    elif a[0] == "--replay":
        build(); j = json.load(open(a[1])); okv, nat = reproduces(j["entry"], j["args"], j["tags"], j); print("reproduced" if okv else "not reproduced", nat); sys.exit(0 if okv else 1)
    elif a[0] == "--run":
        build(); o = px(a[1], a[2], a[3], float(a[4]) if len(a) > 4 else 600, 997); t = o["tot"]
        print("rc %d wall %.1f paths %d incomplete %d queries %d lia %d ext %d stime %.1f smax %.1f" % (o["rc"], o["wall"], t.get("paths", 0), t.get("incomplete", 0), t.get("queries", 0), t.get("lia", 0), t.get("external", 0), t.get("stime", 0), t.get("smax", 0)))
        if o["rc"]: print(o["err"][-400:])
        print("covers", o["covers"]); print("panics", {k[-60:]: v for k, v in list(o["panics"].items())[:8]})
        for v in o["viol"][:3]: print("VIOL", v["tag"], v["loc"][:200], " ".join(v["vals"])[:300], reproduces(a[1], a[2], a[3], v)[1]["end"])
        if o["samples"]:
            res = native(a[1], a[2], a[3], [s["vals"] for s in o["samples"]]); print("samples", len(res), "agree", sum(n["trace"] == s["trace"] for s, n in zip(o["samples"], res)))
    else: check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
