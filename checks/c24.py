"""C24: every interleaving of the file operations of build scripts that share a target directory."""
import os, shutil
import fsx, vk
from concurrent.futures import ThreadPoolExecutor
LEVEL = "model_checking"
SHARED = "target/cxxbridge"
F1 = b'#[cxx::bridge] mod ffi { extern "Rust" { fn f(x: &str) -> String; } }'
F2 = b'#[cxx::bridge] mod ffi { struct S { x: u8 } extern "Rust" { fn g(s: S); } }'
BASE = {"target": ("d",), "target/CACHEDIR.TAG": ("f", b""), "registry": ("d",)}
for i, (n, c) in enumerate((("p", F1), ("q", F2), ("r", F1))):
    BASE.update({n: ("d",), n + "/Cargo.toml": ("f", b""), n + "/src": ("d",), n + "/src/lib.rs": ("f", c), n + "/src/b.rs": ("f", F2), "target/" + n: ("d",), "target/%s/out" % n: ("d",)})


def script(crate, args=("bridge=src/lib.rs",), name=None, rels=("src/lib.rs",), **env):
    e = fsx.clean_env(CARGO_MANIFEST_DIR="@/" + crate, OUT_DIR="@/target/%s/out" % crate, CARGO_PKG_NAME=name or crate, **env)
    prefix = next((a[7:] for a in args if a.startswith("prefix=")), name or crate)
    o = "target/%s/out/cxxbridge/" % crate
    pre = prefix + "/" if prefix else ""
    need = [o + "include/rust/cxx.h"] + [o + d + "/" + pre + r + x for r in rels for d, x in (("include", ".h"), ("sources", ".cc"))]
    return dict(proc=("@/" + crate, e, ["noargs"] + list(args)), out="target/%s/out" % crate, need=need)


H = dict(DEP_CXXBRIDGE1_HEADER="@/registry/cxx.h")
T = dict(CARGO_TARGET_DIR="@/target")
TWO = dict(args=("bridge=src/lib.rs,src/b.rs",), rels=("src/lib.rs", "src/b.rs"))
SCENARIOS = {
    "two crates": [script("p"), script("q")],
    "two crates with the header of a dependency": [script("p", **H), script("q", **H)],
    "one crate with the header of a dependency": [script("p", **H), script("q")],
    "the same crate twice": [script("p", name="same"), script("r", name="same")],
    "two versions of a crate": [script("p", name="same"), script("q", name="same")],
    "two versions of a crate with the header": [script("p", name="same", **H), script("q", name="same", **H)],
    "no prefix": [script("p", args=("prefix=", "bridge=src/lib.rs")), script("q", args=("prefix=", "bridge=src/lib.rs"))],
    "a prefix within the other": [script("p", args=("prefix=a", "bridge=src/lib.rs")), script("q", args=("prefix=a/src", "bridge=src/lib.rs"))],
    "absolute links": [script("p", **T), script("q", **T)],
    "prefix rust": [script("p", args=("prefix=rust", "bridge=src/lib.rs")), script("q", args=("prefix=rust", "bridge=src/lib.rs"))],
}
THREE = {
    "three crates": [script("p"), script("q"), script("r")],
    "three crates, one with the header": [script("p"), script("q", **H), script("r")],
    "three times the same crate": [script(x, name="same") for x in "pqr"],
}
TWOFILES = {"two files each": [script("p", **TWO), script("q", **TWO)], "two files each of one crate": [script("p", name="same", **TWO), script("r", name="same", **TWO)]}
HEADER = [None]
SOLO = {}   # scenario -> [tree of the output of each script], shared tree contents


def init(w):
    w.restore(BASE)
    r = w.run([SCENARIOS["two crates"][0]["proc"]])
    HEADER[0] = w.resolve(SHARED + "/rust/cxx.h")
    if HEADER[0] is None:
        return   # reported by the parent
    BASE["registry/cxx.h"] = ("f", HEADER[0])
    for nm, sc in {**SCENARIOS, **THREE, **TWOFILES}.items():
        outs, shared = [], {}
        for i, s in enumerate(sc):
            w.restore(BASE)
            r = w.run([s["proc"]])
            if r["exits"].get(0) != 0:
                SOLO[nm] = "alone, script %d ends with %s: %s" % (i, r["exits"].get(0), r["out"][0][-300:])
                break
            outs.append({k: v for k, v in w.tree().items() if k.startswith(s["out"])})
            for k in w.tree(SHARED):
                shared.setdefault(k, []).append(None if os.path.isdir(os.path.join(w.root, k)) else w.resolve(k))
            d = os.path.join(w.top, "ref", nm.replace(" ", "_"))
            os.makedirs(d, exist_ok=True)
            for j, k in enumerate(s["need"]):
                with open(os.path.join(d, "%d.%d" % (i, j)), "wb") as f:
                    f.write(w.resolve(k) or b"")
        else:
            SOLO[nm] = (outs, shared)


STARTS = ["empty", "built", "built by another version", "interrupted", "interrupted links"]


def start_state(w, nm, sc, how):
    """What is on disk at the beginning."""
    w.restore(BASE)
    if how == "empty":
        return dict(BASE)
    for s in sc:
        w.run([s["proc"]])
    t = w.tree()
    if how == "built":
        return t
    k = SHARED + "/rust/cxx.h"
    if how == "built by another version":
        if t[k][0] == "f":
            t[k] = ("f", b"// an older header\n" + HEADER[0][:5000])
        for x in list(t):
            if x.endswith((".rs.h", ".rs.cc")) and t[x][0] == "f":
                t[x] = ("f", b"// older\n")
    elif how == "interrupted":
        if t[k][0] == "f":
            t[k] = ("f", HEADER[0][:1000])
        else:
            del t[k]
    elif how == "interrupted links":
        # the outputs of the second are gone, the shared directory still has them
        for x in list(t):
            if x.startswith(sc[-1]["out"] + "/cxxbridge"):
                del t[x]
    return t


def states_of(a):
    nm, how = a
    return nm, how, start_state(fsx.W, nm, ALL[nm], how)


ALL = {**SCENARIOS, **THREE, **TWOFILES}


def case(a):
    nm, how, start, vis, rem, sched = a
    w, sc = fsx.W, ALL[nm]
    w.restore(start)
    d = os.path.join(w.top, "ref", nm.replace(" ", "_"))
    keep = [(i, os.path.join(w.root, k), os.path.join(d, "%d.%d" % (i, j))) for i, s in enumerate(sc) for j, k in enumerate(s["need"])]
    r = w.run([s["proc"] for s in sc], vis=vis, removable=rem, sched=sched, keep=keep)
    steps = "".join(str(o[0]) for o in r["ops"] if o[7])
    bad = []
    for i, s in enumerate(sc):
        if r["exits"].get(i) != 0:
            bad.append(("fails", "script %d ends with %s: %s" % (i, r["exits"].get(i), " ".join(r["out"][i].split())[-300:])))
    for k, p, path, what in r["broken"][:1]:
        bad.append(("broken:%s:%s" % (what, os.path.basename(path)), "script %d has ended, but %s is %s while the others are running" % (p, path, what)))
    t = w.tree()
    outs, shared = SOLO[nm]
    if not bad:
        for i, s in enumerate(sc):
            mine = {k: v for k, v in t.items() if k.startswith(s["out"])}
            if mine != outs[i]:
                # a link to the shared header may say so in another way
                df = sorted(k for k in set(mine) | set(outs[i]) if mine.get(k) != outs[i].get(k))
                df = [k for k in df if not (k in mine and k in outs[i] and mine[k][0] == "l")]
                if df:
                    bad.append(("output", "in the end %s of script %d is %s" % (df[0], i, "missing" if df[0] not in mine else "new" if df[0] not in outs[i] else "different")))
            for j, k in enumerate(s["need"]):
                with open(os.path.join(d, "%d.%d" % (i, j)), "rb") as f:
                    if w.resolve(k) != f.read():
                        bad.append(("output", "in the end %s of script %d is %s" % (k, i, "missing" if w.resolve(k) is None else "different")))
        now = {k: v for k, v in t.items() if k.startswith(SHARED + "/")}
        for k, wants in shared.items():
            if k == SHARED:
                continue
            if k not in now:
                bad.append(("shared", "in the end %s is missing" % k))
            elif now[k][0] != "d" and w.resolve(k) not in wants:
                bad.append(("shared", "in the end %s is %s" % (k, "dangling" if w.resolve(k) is None else "not what any of them writes")))
        more = sorted(set(now) - set(shared) - set(start))
        if more:
            bad.append(("shared", "in the end %s is left over" % more[0]))
    for k, v in BASE.items():
        if t.get(k) != v:
            bad.append(("project", "%s is changed" % k))
            break
    for o in r["ops"]:
        if o[2] >= 0 and not o[6].startswith("-") and not o[4].lstrip("?").startswith("@/target/"):
            bad.append(("project", "%s of %s" % (o[3], o[4])))
            break
    trace = ["%d %s %s %s -> %s" % (o[0], o[3], o[4], o[5], o[6]) for o in r["ops"] if o[7]] if bad else None
    touched = {(o[0], p.lstrip("?"), int(o[2] >= 0 and not o[6].startswith("-")), int(o[3] == "list"), int(o[3] in ("unlink", "rmdir", "rename") and not o[6].startswith("-"))) for o in r["ops"] for p in ((o[4],) if o[3] == "symlink" else o[4:6]) if p}
    return sched, steps, r["states"], bad, trace, touched


def dependent(touched):
    """The operations (script, path) that do not commute with one of another script."""
    by = {}
    for i, p, mod, ls, rm in touched:
        f = by.setdefault(p, {}).setdefault(i, [0, 0])
        f[0] |= mod
        f[1] |= ls
    out = set()
    for p, who in by.items():
        q = p
        while len(q) > 1:
            for j, (mod, ls) in by.get(q, {}).items():
                for i, (m, l) in who.items():
                    # q is p or above it
                    if i != j and (mod or (m and (q == p or ls and q == p.rsplit("/", 1)[0]))):
                        out |= {(i, p), (j, q)}
            q = q.rsplit("/", 1)[0]
    return out


def explore(ck, pool, nm, how, start, bound):
    """All interleavings of the operations that do not commute, up to states seen before and with at most
    `bound` preemptions. Which do not is found out on the way: when a run shows a new one, the exploration
    starts again."""
    touched = {(i, "@/" + SHARED + "/rust/cxx.h", 0, 0, 0) for i in range(len(ALL[nm]))}
    vis, rem = dependent(touched), set()
    again = True
    runs = rounds = longest = 0
    found = set()
    while again and len(found) < 3:
        again = False
        rounds += 1
        seen, transitions = {}, 0
        frontier = [("", 0)]
        while frontier and len(found) < 3 and not again:
            nxt = {}
            cost0 = dict(frontier)
            for sched, steps, states, bad, trace, t in pool.imap(case, [(nm, how, start, sorted(vis), sorted(rem), s) for s, c in frontier], 4):
                runs += 1
                longest = max(longest, len(steps))
                touched |= t
                for kind, what in bad[:2]:
                    if kind not in found:
                        found.add(kind)
                        ck.violation("%s, %s: %s" % (nm, how, what), "%s\nschedule: %s\n%s" % (what, steps, "\n".join(trace)), key="%s:%s" % (kind, nm.replace(" ", "_")))
                        if os.environ.get("VK_SHOW"):
                            ck.log("%s, %s: %s\n%s" % (nm, how, what, "\n".join(trace[-40:])))
                cost = cost0[sched]
                for k in range(len(sched), len(steps) + 1):
                    if k >= len(states):
                        break
                    en, h = states[k]
                    last = steps[k - 1] if k else None
                    if seen.get((h, last), 99) <= cost:
                        break
                    seen[h, last] = cost
                    if k == len(steps):
                        break
                    transitions += 1
                    free = last is None or not en >> int(last) & 1
                    for i in range(4):
                        if en >> i & 1 and str(i) != steps[k] and (free or cost < bound):
                            nxt[steps[:k] + str(i)] = cost + (not free)
            v, rm = dependent(touched), {x[1] for x in touched if x[4]}
            if (v, rm) != (vis, rem):
                vis, rem, again = v, rm, True
            frontier = list(nxt.items())
    return len({h for h, _ in seen}), transitions, runs, longest, rounds


def bound(ck, nm, how):
    """Preemptions."""
    if "BOUND" in os.environ:
        return int(os.environ["BOUND"])
    if nm in THREE:
        return 3 if how == "built" else 2
    return ck.pick(2, 4)


def run(ck):
    base = fsx.prepare(ck)
    tot = [0, 0, 0]
    samples = []
    try:
        pool = fsx.Pool(base, init, 2 * vk.NCPU)
        try:
            header, solo = pool.map(tell, [0])[0]
            if header is None:
                raise vk.Violation("a build script alone does not write the shared header")
            HEADER[0] = header
            BASE["registry/cxx.h"] = ("f", header)
            SOLO.update(solo)
            todo = [(n, h) for n in SCENARIOS for h in STARTS] + [(n, h) for n in ck.pick([], list(TWOFILES)) for h in STARTS] + [(n, h) for n in THREE for h in ck.pick(STARTS[1:2], STARTS)]
            if os.environ.get("C24"):
                todo = [x for x in todo if os.environ["C24"] in x[0] + "," + x[1]]
            for nm, how in todo:
                if isinstance(SOLO[nm], str):
                    ck.violation("%s: %s" % (nm, SOLO[nm]), SOLO[nm])
                    continue
            todo = [x for x in todo if not isinstance(SOLO[x[0]], str)]
            with ThreadPoolExecutor(12) as ex:
                jobs = [(nm, how, ex.submit(explore, ck, pool, nm, how, start, bound(ck, nm, how))) for nm, how, start in pool.imap(states_of, todo, 1)]
                for nm, how, j in jobs:
                    a = j.result()
                    for i in range(3):
                        tot[i] += a[i]
                    ck.log("%s, %s: %d states, %d transitions, %d runs, %d steps, round %d" % (nm, how, *a))
                    samples.append("%s, starting %s: %d states in schedules of up to %d steps" % (nm, how, a[0], a[3]))
        finally:
            pool.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    ck.count("states", tot[0])
    ck.count("transitions", tot[1])
    ck.count("traces_validated_against_impl", tot[2])
    ck.cov["samples"] = samples
    ck.cov["rule"] = "depth first over the order of all system calls of the scripts that touch the shared directory, on the real processes, that do not commute with one of another script, on the real processes, until no state (disk and what each script has seen) is new"
    ck.assumptions.append("a system call is atomic; calls on a script's own output directory commute with those of the others")


def tell(_):
    return HEADER[0], SOLO
