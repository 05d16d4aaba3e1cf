import os
import vk
LEVEL = "fault_enumeration"
MODES = ["no panic", "panic!", "formatted panic", "panic_any", "resume_unwind", "index out of bounds", "unwrap of None", "panic while unwinding", "rethrown panic", "division by zero", "panic caught in Rust", "resume_unwind caught in Rust"]
CTX = ["plain", "inside a destructor", "inside a catch handler", "inside a destructor during unwinding", "on another thread", "inside noexcept", "second call", "inside nested try blocks"]
CODES = {42: "the panic was caught by C++ as an exception", 43: "the call returned normally to C++", 44: "a C++ frame was unwound by the panic", 45: "std::terminate was called by C++", 47: "the operation completed", 48: "the panic reached an outer Rust frame through C++", 46: "elements were left", 49: "harness error"}
ABORT = {6, 4, 5, 11, 7}
def run(ck):
    ck.assumptions = ["%d kinds of panic at every entry point from C++ into Rust that the harness has, in %d kinds of C++ context; a panic is counted as aborting if the process dies by signal without any C++ code running" % (len(MODES), len(CTX))]
    b = os.path.join(vk.cargo_build(ck, "rt", ["--features", "c12"], target=vk.TRIPLE), "rt")
    rc, so, se = vk.run([b, "list"])
    if rc:
        raise vk.Violation("harness does not start: " + vk.describe_exit(rc, se))
    ents = [l.split(" ", 2) for l in so.splitlines()]
    def one(e):
        return e, vk.run([b, "run", e[0]], timeout=300)
    seen = set()
    with vk.pool() as p:
        for e, (rc, so, se) in p.map(one, ents):
            lines = [tuple(map(int, l.split())) for l in so.splitlines()]
            boom = e[1] == "1"
            if rc or len(lines) != (len(MODES) if boom else 1) * len(CTX):
                ck.violation("entry %s: %s" % (e[2], vk.describe_exit(rc, se)), so + se)
                continue
            for _, m, c, sig, code in lines:
                ck.count("evaluations")
                if 1 <= m <= 9:
                    ck.count("panics")
                    ok = sig in ABORT
                else:
                    ok = sig == 0 and code in (43, 47)
                seen.add((e[0], m, c))
                if not ok:
                    what = "signal %d" % sig if sig else CODES.get(code, "exit %d" % code)
                    ck.violation("%s, %s, %s: %s" % (e[2], MODES[m] if boom else "capacity overflow", CTX[c], what),
                                 "entry: %s\nfault: %s\ncontext: %s\nresult: %s\nreplay: %s run %s" % (e[2], MODES[m], CTX[c], what, b, e[0]))
            ck.sample("%s: %s in %d contexts" % (e[2], "%d faults" % (len(lines) // len(CTX)), len(CTX)))
    ck.cov["distinct_nontrivial"] = len([1 for s in seen if 1 <= s[1] <= 9])
    ck.cov["rule"] = "entry point x fault x C++ context, every combination; non-trivial: a panic is raised inside the entry point"
