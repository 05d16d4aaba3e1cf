import json, os, vk
LEVEL = "exploration"
def run(ck):
    ck.assumptions = ["Unicode well-formedness (Unicode Table 3-7) and std's lossy conversions are the reference",
                      "the class alphabet holds both ends of every range the UTF-8/UTF-16 decoding tables distinguish"]
    d = vk.cargo_build(ck, "rt", ["--features", "c02"], asan=True)
    b = os.path.join(d, "rt")
    modes = [("utf8", ck.pick(4, 5)), ("bytes", ck.pick(2, 3)), ("utf16", ck.pick(4, 6)), ("units", 1),
             ("scalars", ck.pick(64, 1)), ("long", 1), ("cmp", ck.pick(3, 4))]
    N = 8
    ck.cov["rule"] = ("every sequence up to the stated length over 27 byte classes (utf8), all byte values (bytes), 13 boundary "
                      "UTF-16 units (utf16), all units (units), scalar values, every insertion position in long texts, and all "
                      "ordered pairs of strings over 9 boundary characters (cmp); each goes through every C++ constructor and "
                      "Rust view. Non-trivial: well-formed sequences (value must survive); the rest must be rejected or repaired")
    def one(t):
        (m, l), k = t
        rc, so, se = vk.run([b, m, str(l), str(k), str(N)], timeout=ck.pick(300, 850))
        return m, rc, so, se
    with vk.pool() as p:
        for m, rc, so, se in p.map(one, [(x, k) for x in modes for k in range(N)]):
            if rc != 0:
                ck.violation("%s: %s" % (m, vk.describe_exit(rc, se)), se[-8000:])
                continue
            r = json.loads(so)
            ck.count("evaluations", r["n"])
            ck.count("distinct_nontrivial", r["valid"])
            ck.count("comparisons", r["steps"])
            ck.count("evaluations_" + m, r["n"])
            for s in r["samples"][:1]:
                ck.sample(s, 8)
            if r["bad"]:
                ck.violation("%s: %s" % (m, r["bad"]))
