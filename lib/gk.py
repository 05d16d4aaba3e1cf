"""Runs many bridges through the C++ generator, the macro (rustc) and g++."""
import json, os, re, struct, subprocess, time
import vk

CRATE = "gen"


class Res:
    __slots__ = ("st", "header", "cc", "err")

    def __init__(self, st, header, cc):
        self.st = st
        self.header, self.cc = (header.decode(), cc.decode()) if st == 0 else ("", "")
        self.err = "" if st == 0 else cc.decode(errors="replace")

    ok = property(lambda s: s.st == 0)


STATUS = {0: "accepted", 1: "rejected", 2: "the generator panicked", 3: "the generator died or did not terminate"}


def build_cli(ck):
    """The cxxbridge command of /repo."""
    e = vk.base_env()
    t = time.time()
    rc, out, err = vk.run(["cargo", "build", "--offline", "--message-format=short", "-p", "cxxbridge-cmd"], env=e, cwd="/repo", timeout=800)
    ck.log("built cxxbridge in %.1fs rc=%d" % (time.time() - t, rc))
    if rc:
        raise vk.Violation("the cxxbridge command does not build: " + " | ".join(l for l in err.splitlines() if "error" in l)[:900], err[-8000:])
    return os.path.join(e["CARGO_TARGET_DIR"], "debug", "cxxbridge")


class Gen:
    def __init__(self, ck, crate=CRATE, features=()):
        self.ck = ck
        e = vk.base_env()
        cmd = ["cargo", "build", "--offline", "--locked", "--message-format=json"] + (["--features", ",".join(features)] if features else [])
        t = time.time()
        rc, out, err = vk.run(cmd, env=e, cwd=os.path.join(vk.ROOT, crate), timeout=800)
        ck.log("built %s in %.1fs rc=%d" % (crate, time.time() - t, rc))
        arts = {}
        msgs = []
        for l in out.splitlines():
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("reason") == "compiler-artifact":
                    arts[j["target"]["name"]] = j
                elif j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
                    msgs.append(j["message"]["rendered"])
        if rc:
            raise vk.Violation("the generator does not build: " + " | ".join(msgs[:3])[:1500], "\n".join(msgs) + err[-8000:])
        self.bin = arts[crate]["executable"]
        self.rlib = [f for f in arts["cxx"]["filenames"] if f.endswith(".rlib")][0]
        self.deps = os.path.join(os.path.dirname(self.bin), "deps")
        self.inc = os.path.join(ck.work, "inc")
        os.makedirs(os.path.join(self.inc, "rust"), exist_ok=True)
        with open(os.path.join(self.inc, "rust", "cxx.h"), "w") as f:
            f.write(vk.run([self.bin, "header"])[1])

    # ---- generator -------------------------------------------------------
    def _feed(self, reqs, quiet):
        """reqs: list of (id, src, cfg, ann, inc)."""
        res = {}
        while reqs:
            buf = []
            for i, *parts in reqs:
                buf.append(struct.pack("<IB", i, 1 if quiet else 0))
                for p in parts:
                    b = p.encode()
                    buf.append(struct.pack("<I", len(b)) + b)
            rc, so, se = vk.run([self.bin], input=b"".join(buf), text=False, timeout=60 + len(reqs) // 20)
            n = 0
            o = 0
            while o + 13 <= len(so):
                i, st, hl = struct.unpack_from("<IBI", so, o)
                o2 = o + 9
                if o2 + hl + 4 > len(so):
                    break
                cl, = struct.unpack_from("<I", so, o2 + hl)
                if o2 + hl + 4 + cl > len(so):
                    break
                res[i] = Res(st, so[o2:o2 + hl], so[o2 + hl + 4:o2 + hl + 4 + cl])
                o = o2 + hl + 4 + cl
                n += 1
            if n == len(reqs):
                break
            bad = reqs[n]
            res[bad[0]] = Res(3, b"", ("exit %d %s" % (rc, se.decode(errors="replace")[-200:])).encode())
            reqs = reqs[n + 1:]
        return res

    def batch(self, reqs, quiet=False):
        """reqs: list of source strings or (src, cfg, ann, includes) -> list of Res."""
        full = [(i,) + ((r, "", "", "") if isinstance(r, str) else tuple(r)) for i, r in enumerate(reqs)]
        k = min(vk.NCPU, max(1, len(full) // 20))
        with vk.pool() as p:
            out = {}
            for d in p.map(lambda c: self._feed(c, quiet), [full[j::k] for j in range(k)]):
                out.update(d)
        return [out[i] for i in range(len(full))]

    # ---- macro -----------------------------------------------------------
    def rustc(self, path, out, args=(), timeout=300, edition="2021"):
        cmd = ["rustc", "--edition", edition, "-L", "dependency=" + self.deps, "--extern", "cxx=" + self.rlib,
               "--error-format=json", "-Awarnings", "--cap-lints", "allow", "-o", out] + list(args) + [path]
        rc, so, se = vk.run(cmd, timeout=timeout, cwd=self.ck.work)
        errs = []
        for l in se.splitlines():
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("level") in ("error", "failure-note") and (j.get("spans") or "aborting" not in j["message"]):
                    lines = [s for s in j["spans"] if s["is_primary"]] or j["spans"]
                    # errors inside a macro expansion count at the outermost call site
                    ln = set()
                    for s in lines:
                        while s.get("expansion"):
                            s = s["expansion"]["span"]
                        if s["file_name"] == path:
                            ln.add(s["line_start"])
                    errs.append((sorted(ln), j["message"] + (" [%s]" % j["code"]["code"] if j.get("code") else "")))
            elif "panicked at" in l or "overflowed its stack" in l:
                errs.append(([], l))
        return rc, errs, se

    def verdicts(self, mods, prelude="", tag="v", per=400, rounds=8, args=()):
        """Which of `mods` (module bodies) rustc accepts. Returns a list of [] or
        lists of messages. Modules with errors are removed and the others are
        compiled again, since an early error hides later ones."""
        res = [[] for _ in mods]

        def part(k_idx):
            k, idx = k_idx
            left = list(idx)
            for r in range(rounds):
                path = os.path.join(self.ck.work, "%s%d_%d.rs" % (tag, k, r))
                text = "#![allow(warnings)]\n" + prelude + "\n"
                starts = []
                line = text.count("\n") + 1
                parts = [text]
                for i in left:
                    body = "pub mod m%d { use super::*;\n%s\n}\n" % (i, mods[i])
                    starts.append((line, line + body.count("\n"), i))
                    line += body.count("\n")
                    parts.append(body)
                with open(path, "w") as f:
                    f.write("".join(parts))
                rc, errs, se = self.rustc(path, path + ".rmeta", ["--crate-type", "lib", "--emit", "metadata", "--crate-name", "t%s%d" % (tag, k)] + list(args))
                if rc == 0:
                    return
                hit = set()
                glob = []
                for lines, msg in errs:
                    own = {i for l in lines for a, b, i in starts if a <= l < b}
                    for i in own:
                        res[i].append(msg)
                        hit.add(i)
                    if not own:
                        glob.append(msg)
                if not hit:
                    if len(left) == 1:
                        res[left[0]].append("; ".join(glob) or "exit %d %s" % (rc, se[-300:]))
                        return
                    raise vk.Violation("rustc fails without pointing at a bridge: %s" % ("; ".join(glob) or "exit %d %s" % (rc, se[-600:]))[:900], open(path).read())
                left = [i for i in left if i not in hit]
                if not left:
                    return
        idx = list(range(len(mods)))
        k = max(min(vk.NCPU, (len(mods) + 9) // 10), (len(mods) + per - 1) // per)
        with vk.pool() as p:
            list(p.map(part, [(j, idx[j::k]) for j in range(k) if idx[j::k]]))
        return res

    # ---- C++ -------------------------------------------------------------
    def cxx(self, path, args=("-fsyntax-only",), cc="g++", std="c++17", timeout=300):
        cmd = [cc, "-std=" + std, "-x", "c++", "-I", self.inc, "-I", os.path.dirname(path)] + list(args) + [path]
        rc, so, se = vk.run(cmd, timeout=timeout, cwd=self.ck.work)
        errs = re.findall(r"^(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$", se, re.M)
        return rc, errs, se

    def cxx_many(self, jobs):
        """jobs: list of (path, args, cc, std) run in parallel."""
        with vk.pool() as p:
            return list(p.map(lambda j: self.cxx(*j), jobs))


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    return path
