import json, os, shutil, subprocess
V, R = "/verif/seeded", "/tmp/seedrepo"
def seed(id, prop, needs, breaks, edits, files, demo=None):
    d = f"{V}/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if not os.path.exists(R):
        subprocess.check_call(["cp", "-a", "/repo", R])
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    subprocess.check_call("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=R)
    for f, old, new in edits:
        s = open(f"{R}/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(f"{R}/{f}", "w").write(s.replace(old, new))
    p = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    open(f"{d}/patch.diff", "w").write(p)
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    for n, t in files.items():
        open(f"{d}/{n}", "w").write(t.lstrip("\n"))
    if demo is None:
        shutil.copy("/verif/tools/demo_rt.sh", f"{d}/demo.sh")
    else:
        open(f"{d}/demo.sh", "w").write(demo)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
