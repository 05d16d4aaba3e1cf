#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo; --check runs our checks on them (in /repo)."""
import json, os, subprocess, sys, shutil
V = "/verif/seeded"; R = "/tmp/seedrepo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-04-08", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]
def sh(c, cwd=R, **k):
    return subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def tests():
    sh(r"""cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1
sed -E -e 's/\x1b\[[0-9;]*m//g' -e 's/^(test tests\/ui\/[^ ]+\.rs)( \[should [^]]*\])? \.\.\. ok$/\1 ... ok/' -e 's/^(test tests\/ui\/[^ ]+\.rs)( \[should [^]]*\])? \.\.\. (error|mismatch|wip)$/\1 ... FAILED/' /tmp/seed.log > /tmp/seed.norm
python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.norm""")
    r = json.load(open("/tmp/seed.json"))
    return r
def passed(r):
    return {k for k, v in r.items() if v in ("pass", "passed", "ok", True)} if not ("passed" in r) else set(r["passed"])
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = args or sorted(os.listdir(V))
if "--check" in sys.argv:
    for i in ids:
        p = json.load(open(f"{V}/{i}/meta.json"))["property"]
        c = os.environ.get("PROPS", p).split(",")
        assert sh(f"git apply {V}/{i}/patch.diff", cwd="/repo").returncode == 0, i
        try:
            for q in c:
                r = subprocess.run(["python3", "/verif/check.py", q, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                l = [x for x in r.stdout.splitlines() if "violation:" in x]
                print(i, q, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={q}" in r.stdout else f"MISSED rc={r.returncode}", (l or [r.stdout[-300:]])[0][:300], flush=True)
        finally:
            sh("git checkout -- .", cwd="/repo")
    sys.exit()
if not os.path.exists(R):
    subprocess.check_call(["cp", "-a", "/repo", R])
head = sh("git rev-parse HEAD", cwd="/repo").stdout.strip()
if sh("git rev-parse HEAD").stdout.strip() != head:
    print(sh(f"git fetch -q /repo && git reset -q --hard {head}").stdout)
sh("git checkout -- .")
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for i in ids:
    d = f"{V}/{i}"
    sh("git checkout -- .")
    dm = f"/tmp/seeddemo"; shutil.rmtree(dm, ignore_errors=True); shutil.copytree(d, dm)
    for f in os.listdir(dm):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(f"{dm}/{f}")
    a = sh(f"bash {dm}/demo.sh", timeout=300)
    if a.returncode: print(i, "DEMO FAILS ON CLEAN", a.stdout[-1500:]); continue
    p = sh(f"git apply {d}/patch.diff")
    if p.returncode: print(i, "PATCH", p.stdout); continue
    b = sh("cargo build --workspace --offline && cargo test --workspace --no-run --offline")
    if b.returncode: print(i, "BUILD", b.stdout[-1500:]); sh("git checkout -- ."); continue
    r = tests()
    ok = passed(r)
    miss = [s for s in base if s not in ok]
    a = sh(f"bash {dm}/demo.sh", timeout=300)
    sh("git checkout -- .")
    print(i, "GOOD" if not miss and a.returncode else "BAD", "tests lost: %s" % miss[:4], "demo rc=%d %s" % (a.returncode, a.stdout[-200:].replace("\n", " | ")), flush=True)
