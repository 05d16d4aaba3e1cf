import os
import vk
LEVEL = "model_checking"
WILD = ["int", "char const *", "std::string", "a local struct", "std::runtime_error"]
def run(ck):
    ck.assumptions = ["23 return conventions x 11 exception kinds x 8 messages, pairwise; all messages over 14 bytes to the stated length; chains of alternating frames with 11 actions per frame (7 with threads and destructors) to the stated depth",
                      "default trycatch and one custom trycatch; AddressSanitizer and allocation counters observe leaked errors and exceptions"]
    b = os.path.join(vk.cargo_build(ck, "rt", ["--features", "c11"], asan=True), "rt")
    for i in range(10):
        rc, so, se = vk.run([b, "wild", str(i)], timeout=60)
        ck.count("uncaught_exceptions")
        want = 43 if i == 9 else 45
        if rc != want:
            ck.violation("a C++ function %s Result throws %s: exit %s, expected %s" % ("without" if i < 5 else "with", WILD[i % 5], rc, "std::terminate" if want == 45 else "Err"), "replay: %s wild %d\n%s" % (b, i, se))
    jobs = []
    for s, n in vk.systems(b):
        if s.startswith("err-chain"):
            d = ck.pick(4, 6) if "thread" in s else ck.pick(5, 6)
        elif s in ("err-bytes", "err-custom"):
            d = ck.pick(4, 5) if s == "err-bytes" else ck.pick(5, 6)
        else:
            d = 2
        sh = max(1, min(8, n ** d // 3000))
        jobs += [(s, ["dfs", d, k, sh]) for k in range(sh)]
    vk.explore(ck, b, jobs, ck.pick(120, 1200))
