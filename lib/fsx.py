"""Controlled runs of build scripts (fe) under fe/fsx.c, in scratch directories, as an unprivileged user."""
import os, re, shutil, stat, subprocess, tempfile, multiprocessing
import vk

NOBODY = 65534


def prepare(ck):
    """Copies the script and the tracer where the unprivileged user can run them; returns the scratch directory."""
    d = vk.cargo_build(ck, "fe")
    where = "/tmp"
    try:
        v = os.statvfs("/dev/shm")   # much faster than a disk
        if os.access("/dev/shm", os.W_OK) and not v.f_flag & os.ST_NOEXEC and v.f_bavail * v.f_frsize > 1 << 30:
            where = "/dev/shm"
    except OSError:
        pass
    base = tempfile.mkdtemp(prefix="cxxfs.", dir=where)
    os.chmod(base, 0o777)
    shutil.copy(os.path.join(d, "fe"), os.path.join(base, "fe"))
    rc, so, se = vk.run(["gcc", "-O1", "-w", "-o", os.path.join(base, "fsx"), os.path.join(vk.ROOT, "fe", "fsx.c")])
    if rc:
        raise AssertionError(se)
    os.chmod(os.path.join(base, "fe"), 0o755)
    os.chmod(os.path.join(base, "fsx"), 0o755)
    return base


class Pool:
    """Worker processes, each an unprivileged user with a root directory and a tracer of its own."""

    def __init__(self, base, init, n=None):
        self.pool = multiprocessing.get_context("fork").Pool(n or vk.NCPU, _start, (base, init))
        self.imap = self.pool.imap_unordered
        self.map = self.pool.map

    def close(self):
        self.pool.terminate()
        self.pool.join()


W = None   # the worker of this process


def _start(base, init):
    global W
    os.setgroups([]) if os.getuid() == 0 else None
    if os.getuid() == 0:
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)
    W = Worker(base)
    init(W)


class Worker:
    def __init__(self, base):
        self.base = base
        self.top = os.path.join(base, "w%d" % os.getpid())
        self.root = os.path.join(self.top, "r")
        os.makedirs(self.root)
        self.out = [os.path.join(self.top, "out%d" % i) for i in range(4)]
        self.fe = os.path.join(base, "fe")
        self.srv = subprocess.Popen([os.path.join(base, "fsx")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, errors="replace")
        self.known = None

    def path(self, p):
        return p.replace("@", self.root)

    # ---- trees: path -> ("d",) | ("f", content) | ("l", target)
    def tree(self, sub=""):
        out = {}
        r = self.root

        def walk(p, rel):
            for e in os.scandir(p):
                k = rel + "/" + e.name if rel else e.name
                if e.is_symlink():
                    out[k] = ("l", os.readlink(e.path).replace(r, "@"))
                elif e.is_dir(follow_symlinks=False):
                    out[k] = ("d",)
                    walk(e.path, k)
                else:
                    with open(e.path, "rb") as f:
                        out[k] = ("f", f.read().replace(r.encode(), b"@"))
        p = os.path.join(r, sub) if sub else r
        if os.path.isdir(p):
            walk(p, sub)
        return out

    def stamps(self):
        out = {}
        for d, ds, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                s = os.lstat(p)
                if stat.S_ISREG(s.st_mode):
                    out[os.path.relpath(p, self.root)] = (s.st_mtime_ns, s.st_ino, s.st_size)
        return out

    def restore(self, t):
        for e in os.scandir(self.root):
            if e.is_dir(follow_symlinks=False):
                for d, ds, fs in os.walk(e.path):
                    try:
                        os.chmod(d, 0o755)
                    except OSError:
                        pass
                shutil.rmtree(e.path)
            else:
                os.unlink(e.path)
        for k in sorted(t):
            p = os.path.join(self.root, k)
            v = t[k]
            if v[0] == "d":
                os.mkdir(p)
            elif v[0] == "l":
                os.symlink(self.path(v[1]), p)
            else:
                with open(p, "wb") as f:
                    f.write(v[1].replace(b"@/", self.root.encode() + b"/"))

    def resolve(self, rel):
        """Content behind a path, links followed; None if there is no file."""
        try:
            with open(os.path.join(self.root, rel), "rb") as f:
                return f.read().replace(self.root.encode(), b"@")
        except OSError:
            return None

    # ---- runs
    def run(self, procs, faults=(), vis=None, sched="", keep=(), removable=()):
        """procs: [(cwd, env dict, args)]; faults: [("F"|"Q", idx, act, n)].
        Returns dict(ops, exits, states, broken, out)."""
        L = ["R " + self.root]
        if vis is not None:
            L += ["M on"] + ["V %d %s" % (i, self.path(v)) for i, v in vis] + ["D " + self.path(v) for v in removable]
        for i, (cwd, env, args) in enumerate(procs):
            L.append("P " + self.path(cwd))
            L += ["E %s=%s" % (k, self.path(v)) for k, v in env.items()]
            L += ["A " + self.fe] + ["A " + self.path(a) for a in args]
            L.append("O " + self.out[i])
        L += ["%s %d %s %d" % f for f in faults]
        L += ["K %d %s %s" % (p, self.path(a), self.path(b)) for p, a, b in keep]
        if sched:
            L.append("S " + sched)
        L.append("G go")
        self.srv.stdin.write("\n".join(L) + "\n")
        self.srv.stdin.flush()
        r = dict(ops=[], exits={}, states=[], broken=[], out=[])
        while True:
            l = self.srv.stdout.readline()
            if not l:
                raise AssertionError("the tracer ended")
            f = l.rstrip("\n").split("\t")
            if f[0] == ".":
                break
            if f[0] == "O":
                r["ops"].append((int(f[1]), int(f[2]), int(f[3]), f[4], f[5].replace(self.root, "@"), f[6].replace(self.root, "@"), f[7], int(f[8])))
            elif f[0] == "X":
                r["exits"][int(f[1])] = int(f[2])
            elif f[0] == "H":
                r["states"].append((int(f[2]), f[3]))
            elif f[0] == "B":
                r["broken"].append((int(f[1]), int(f[2]), f[3].replace(self.root, "@"), f[4]))
        for i in range(len(procs)):
            with open(self.out[i], errors="replace") as h:
                r["out"].append(h.read().replace(self.root, "@"))
        return r


def clean_env(**kw):
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TARGET": "x86_64-unknown-linux-gnu", "HOST": "x86_64-unknown-linux-gnu", "OPT_LEVEL": "0"}
    e.update(kw)
    return e
