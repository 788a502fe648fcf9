#!/usr/bin/env python3
"""mkseed.py FILE.py [ids]: makes planted bugs from a list SEEDS (id, prop, edits, main, needs, breaks) and confirms each in the scratch copy /tmp/rc."""
import sys, os, subprocess, json, shutil, re
here = os.path.dirname(os.path.abspath(__file__)); rc = "/tmp/rc"
ns = {}; exec(open(sys.argv[1]).read(), ns); want = sys.argv[2:]
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.75.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=rc + "/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, t=900): 
    p = subprocess.run(c, shell=True, cwd=rc, env=env, capture_output=True, text=True, timeout=t); return p.returncode, p.stdout + p.stderr
def tests():
    out = ""
    for c in ("cargo test --no-fail-fast --locked --offline --lib -- --test-threads 8", "cargo test --no-fail-fast --locked --offline --features no-entrypoint --test '*' -- --test-threads 8"):
        out += sh(c)[1]
    return out
for s in ns["SEEDS"]:
    if want and s["id"] not in want: continue
    sh("git checkout -q -- . && git clean -qfd tests src")
    d = "/verif/seeded/" + s["id"]; tmp = "/tmp/seeds/" + s["id"]; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    shutil.copy(here + "/demo/demo.sh", tmp); shutil.copy(here + "/demo/sim.rs", tmp)
    open(tmp + "/main.rs", "w").write(s["main"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    r, o = sh("bash %s/demo.sh" % tmp)
    if r: print(s["id"], "DEMO FAILS CLEAN\n", o[-1500:]); continue
    bad = False
    for f, a, b in s["edits"]:
        t = open(rc + "/" + f).read()
        if t.count(a) != 1: print(s["id"], "edit matches", t.count(a), f, a[:60]); bad = True; break
        open(rc + "/" + f, "w").write(t.replace(a, b))
    if bad: continue
    open(tmp + "/patch.diff", "w").write(sh("git diff")[1])
    r, o = sh("cargo build --locked --offline")
    if r: print(s["id"], "NO BUILD\n", o[-1500:]); continue
    o = tests(); fails = re.findall(r"^test (\S+) \.\.\. FAILED", o, re.M)
    oks = len(re.findall(r"^test \S+ \.\.\. ok", o, re.M))
    fl = [f for f in fails if any(x.endswith("::" + f) for x in stable)]
    r, o = sh("bash %s/demo.sh" % tmp)
    print(s["id"], "OK" if r and not fl and oks >= 31 else "BAD", "tests ok", oks, "stable fails", fl, "demo", r, "|", " ".join(re.findall(r"panicked at.*|^  left.*|^ right.*|assertion.*", o)[:1])[:160], flush=True)
    if r and not fl and oks >= 31:
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
sh("git checkout -q -- .")
