"""C13: every placement of every kind of item by execution, and every pair of items for distinct symbols."""
import itertools, os, re
import gk, vk
LEVEL = "exploration"
NS_MOD = [None, "m", "m::n"]
NS_BLOCK = [None, "", "b", "m::q"]
NS_ITEM = [None, "", "i::j", "m"]
KINDS = ["C++ function", "C++ type", "C++ method", "Rust function", "Rust type", "Rust method", "struct", "enum", "extern enum", "extern struct", "C++ method of a struct", "Rust method of a struct", "alias"]


class Item:
    def __init__(self, n, mod, kind, block, item, cn, rn):
        self.n, self.kind = n, kind
        free = kind in ("struct", "enum")
        self.block = None if free else block
        self.ns = next((x for x in (item, self.block, mod) if x is not None), "")
        up = kind in ("C++ type", "Rust type", "struct", "enum", "extern enum", "extern struct", "alias")
        p = ("I" if up else "i"), ("X" if up else "x"), ("R" if up else "r")
        self.ident = "%s%d" % (p[0], n)
        self.cxx = "%s%d" % (p[1], n) if cn else self.ident
        self.rust = "%s%d" % (p[2], n) if rn else self.ident
        self.attr = "".join(["#[namespace = \"%s\"] " % item if item is not None else "", "#[cxx_name = \"%s\"] " % self.cxx if cn else "", "#[rust_name = \"%s\"] " % self.rust if rn else ""])
        self.battr = "" if self.block is None else "#[namespace = \"%s\"] " % block
        self.names = ["%s%d" % (q, n) for q in p]
        # namespaces in which something else goes by the same names
        self.others = [x for x in dict.fromkeys(["", mod or "", self.block or "", item or "", "m", "m::n", "zz"]) if x != self.ns]
        self.what = "%s %s%s%s in a bridge in %s" % (kind, self.battr, self.attr, self.ident, repr(mod or ""))


def inns(ns, text):
    return "".join("namespace %s { " % s for s in ns.split("::") if ns) + text + " }" * (ns.count("::") + 1 if ns else 0)


def full(ns, name):
    return "::" + (ns + "::" if ns else "") + name


def build(mod, k):
    """Bridge text, pre.h, C++ test rows, Rust definitions, Rust test rows for one module namespace."""
    bridge, h, cc, rs, rrow = [], [], [], [], []
    n = k * 100000
    items = []
    for kind in KINDS:
        for b, i, cn, rn in itertools.product(NS_BLOCK, NS_ITEM, (0, 1), (0, 1)):
            if kind in ("struct", "enum") and b is not None:
                continue
            n += 1
            it = Item(n, mod, kind, b, i, cn, rn)
            items.append(it)
            F = full(it.ns, it.cxx)
            good, bad = n, n + 50000
            C = it.battr + 'unsafe extern "C++" { %s }'
            R = it.battr + 'extern "Rust" { %s }'
            helper = '#[namespace = ""] '
            c_row = lambda e: cc.append("vk_row(%d, static_cast<std::uint32_t>(%s));" % (n, e))
            r_row = lambda e: rrow.append("row(%d, %s as u32);" % (n, e))
            fake = lambda f: [h.append(inns(o, f(x))) for o in it.others for x in it.names] + [h.append(inns(it.ns, f(x))) for x in it.names if x != it.cxx]
            decoys = [x for x in it.names if x != it.rust]
            if kind == "C++ function":
                f = lambda x, v=bad: "inline std::uint32_t %s() { return %d; }" % (x, v)
                fake(f)
                h.append(inns(it.ns, f(it.cxx, good)))
                bridge.append(C % (it.attr + "fn %s() -> u32;" % it.ident))
                r_row("ffi::%s()" % it.rust)
            elif kind == "C++ type":
                f = lambda x, v=bad: "struct %s { std::uint32_t get() const { return %d; } };" % (x, v)
                fake(f)
                h.append(inns(it.ns, f(it.cxx, good)))
                h.append("inline const %s &mk%d() { static %s t; return t; }" % (F, n, F))
                bridge.append(C % (it.attr + "type %s; %s#[cxx_name = \"get\"] fn get%d(self: &%s) -> u32; %sfn mk%d() -> &'static %s;" % (it.ident, helper, n, it.rust, helper, n, it.rust)))
                r_row("ffi::%s::get%d(ffi::mk%d())" % (it.rust, n, n))
            elif kind == "C++ method":
                h.append("struct T%d { %s }; inline const T%d &mk%d() { static T%d t; return t; }" % (n, " ".join("std::uint32_t %s() const { return %d; }" % (x, good if x == it.cxx else bad) for x in it.names), n, n, n))
                bridge.append(C % (helper + "type T%d; %s fn %s(self: &T%d) -> u32; %sfn mk%d() -> &'static T%d;" % (n, it.attr, it.ident, n, helper, n, n)))
                r_row("ffi::mk%d().%s()" % (n, it.rust))
            elif kind == "Rust function":
                rs.append("pub fn %s() -> u32 { %d }" % (it.rust, good))
                rs += ["pub fn %s() -> u32 { %d }" % (x, bad) for x in decoys]
                fake(lambda x: "inline std::uint32_t %s() { return %d; }" % (x, bad)) if False else None
                bridge.append(R % (it.attr + "fn %s() -> u32;" % it.ident))
                c_row("%s()" % F)
            elif kind == "Rust type":
                rs.append("pub struct %s; impl %s { pub fn get%d(&self) -> u32 { %d } }" % (it.rust, it.rust, n, good))
                rs += ["pub struct %s; impl %s { pub fn get%d(&self) -> u32 { %d } }" % (x, x, n, bad) for x in decoys]
                rs.append("pub fn mk%d() -> Box<%s> { Box::new(%s) }" % (n, it.rust, it.rust))
                bridge.append(R % (it.attr + "type %s; %sfn get%d(self: &%s) -> u32; %sfn mk%d() -> Box<%s>;" % (it.ident, helper, n, it.rust, helper, n, it.rust)))
                cc.append("{ rust::Box<%s> b = ::mk%d(); vk_row(%d, b->get%d()); }" % (F, n, n, n))
            elif kind == "Rust method":
                rs.append("pub struct T%d; impl T%d { %s } pub fn mk%d() -> Box<T%d> { Box::new(T%d) }" % (n, n, " ".join("pub fn %s(&self) -> u32 { %d }" % (x, good if x == it.rust else bad) for x in it.names), n, n, n))
                bridge.append(R % (helper + "type T%d; %s fn %s(self: &T%d) -> u32; %sfn mk%d() -> Box<T%d>;" % (n, it.attr, it.ident, n, helper, n, n)))
                cc.append("{ auto b = ::mk%d(); vk_row(%d, b->%s()); }" % (n, n, it.cxx))
            elif kind == "struct":
                bridge.append(it.attr + "struct %s { x: [u8; %d] }" % (it.ident, n % 100000))
                cc.append("vk_row(%d, sizeof(%s) + %d);" % (n, F, k * 100000))
                r_row("(std::mem::size_of::<ffi::%s>() + %d)" % (it.rust, k * 100000))
            elif kind == "enum":
                bridge.append(it.attr + "#[repr(u32)] enum %s { A = %d }" % (it.ident, good))
                c_row("%s::A" % F)
                r_row("ffi::%s::A.repr" % it.rust)
            elif kind == "extern enum":
                f = lambda x, v=bad: "enum class %s : std::uint32_t { A = %d };" % (x, v)
                fake(f)
                h.append(inns(it.ns, f(it.cxx, good)))
                sa = "".join(["#[namespace = \"%s\"] " % it.ns, "#[cxx_name = \"%s\"] " % it.cxx, "#[rust_name = \"%s\"] " % it.rust])
                bridge.append(sa + "#[repr(u32)] enum %s { A = %d }" % (it.ident, good) + C % (it.attr + "type %s;" % it.ident))
                r_row("ffi::%s::A.repr" % it.rust)
            elif kind == "extern struct":
                f = lambda x, v: "struct %s { std::uint32_t x; std::uint32_t %s() const { return x + %d; } };" % (x, "get", v)
                fake(lambda x: f(x, 50000))
                h.append(inns(it.ns, f(it.cxx, 0)))
                sa = "".join(["#[namespace = \"%s\"] " % it.ns, "#[cxx_name = \"%s\"] " % it.cxx, "#[rust_name = \"%s\"] " % it.rust])
                bridge.append(sa + "struct %s { x: u32 }" % it.ident + C % (it.attr + "type %s; %s#[cxx_name = \"get\"] fn get%d(self: &%s) -> u32;" % (it.ident, helper, n, it.rust)))
                r_row("ffi::%s { x: %d }.get%d()" % (it.rust, good, n))
            elif kind == "C++ method of a struct":
                bridge.append("struct S%d { x: u32 } " % n + C % (it.attr + "fn %s(self: &S%d) -> u32;" % (it.ident, n)))
                h.append(inns(mod or "", "struct S%d;" % n))
                cc.insert(0, "//def std::uint32_t %s::%s() const noexcept { return x; }" % (full(mod or "", "S%d" % n), it.cxx))
                r_row("ffi::S%d { x: %d }.%s()" % (n, good, it.rust))
            elif kind == "Rust method of a struct":
                bridge.append("struct S%d { x: u32 } " % n + R % (it.attr + "fn %s(self: &S%d) -> u32;" % (it.ident, n)))
                rs.append("impl ffi::S%d { %s }" % (n, " ".join("pub fn %s(&self) -> u32 { %s }" % (x, "self.x" if x == it.rust else "0") for x in it.names)))
                cc.append("{ %s s{}; s.x = %d; vk_row(%d, s.%s()); }" % (full(mod or "", "S%d" % n), good, n, it.cxx))
            elif kind == "alias":
                h.append(inns(it.ns, "struct %s { std::uint32_t x; };" % it.cxx))
                h.append("inline std::uint32_t mk%d(%s a) { return a.x; }" % (n, F))
                rs.append('#[repr(C)] pub struct Al%d(pub u32); unsafe impl cxx::ExternType for Al%d { type Id = cxx::type_id!("%s"); type Kind = cxx::kind::Trivial; }' % (n, n, F[2:]))
                bridge.append(C % (it.attr + "type %s = super::Al%d; %sfn mk%d(x: %s) -> u32;" % (it.ident, n, helper, n, it.rust)))
                r_row("ffi::mk%d(ffi::%s { 0: %d })" % (n, it.rust, good))
    src = "#[cxx::bridge%s]\npub mod ffi {\nunsafe extern \"C++\" { include!(\"pre%d.h\"); }\n%s\n}" % ("(namespace = \"%s\")" % mod if mod else "", k, "\n".join(bridge))
    return items, src, h, cc, rs, rrow


def placements(ck, g):
    d = os.path.join(ck.work, "p")
    os.makedirs(d, exist_ok=True)
    every, jobs, mods, calls, objs = {}, [], [], [], []
    for k, mod in enumerate(NS_MOD):
        items, src, h, cc, rs, rrow = build(mod, k)
        every.update((i.n, i) for i in items)
        r = g.batch([src])[0]
        if not r.ok:
            ck.violation("a bridge with items in every placement is rejected: " + r.err[:500], src + "\n" + r.err)
            return
        gk.write(os.path.join(d, "pre%d.h" % k), "#pragma once\n#include <cstdint>\n#include <memory>\n" + "\n".join(h))
        gk.write(os.path.join(d, "b%d.h" % k), r.header)
        defs = [c[5:] for c in cc if c.startswith("//def")]
        rows = [c for c in cc if not c.startswith("//def")]
        gk.write(os.path.join(d, "t%d.cc" % k), '#include "b%d.h"\nextern "C" void vk_row(std::uint32_t, std::uint32_t) noexcept;\n%s\nextern "C" void vk_cc%d() {\n%s\n}\n' % (k, "\n".join(defs), k, "\n".join(rows)))
        gk.write(os.path.join(d, "b%d.cc" % k), r.cc)
        for s in ("t", "b"):
            o = os.path.join(d, "%s%d" % (s, k))
            jobs.append((o + ".cc", ("-c", "-O0", "-o", o + ".o"), "g++", "c++17"))
            objs.append(o + ".o")
        mods.append("pub mod m%d { use super::*;\n%s\n%s\nextern \"C\" { fn vk_cc%d(); }\npub fn run() {\n%s\nunsafe { vk_cc%d() }\n}\n}" % (k, "\n".join(rs), src, k, "\n".join(rrow), k))
        calls.append("m%d::run();" % k)
        ck.count("rows", len(rows) + len(rrow))
    ok = True
    for j, (rc, errs, se) in zip(jobs, g.cxx_many(jobs)):
        for e in errs[:8] if rc else []:
            ok = False
            try:
                at = open(e[0]).read().split("\n")[int(e[1]) - 1]
            except (OSError, IndexError):
                at = ""
            m = re.search(r"[IXRixrTS](\d{1,6})\b|mk(\d+)", at + e[2])
            it = every.get(int(m.group(1) or m.group(2))) if m else None
            ck.violation("%sC++: %s" % (it.what + ": " if it else "", e[2][:200]), at + "\n" + se[:5000], key="cc:" + (it.what if it else e[2]))
        if rc and not errs:
            ok = False
            ck.violation("C++: " + se[:300], se)
    p = gk.write(os.path.join(d, "main.rs"), "#![allow(warnings)]\n#[no_mangle] pub extern \"C\" fn vk_row(a: u32, b: u32) { row(a, b) }\npub fn row(a: u32, b: u32) { println!(\"{a} {b}\"); }\n%s\nfn main() { %s println!(\"end\"); }\n" % ("\n".join(mods), " ".join(calls)))
    if not ok:
        rc, errs, se = g.rustc(p, p + ".rmeta", ["--crate-type", "lib", "--emit", "metadata", "--crate-name", "places"])
    else:
        rc, errs, se = g.rustc(p, p + ".exe", ["--crate-type", "bin", "--crate-name", "places", "-C", "link-arg=-lstdc++"] + ["-C" + "link-arg=" + o for o in objs] + ["-C", "link-arg=-lstdc++"])
    if rc:
        lines = open(p).read().split("\n")
        for ls, m in errs[:8] or [([], se[-500:])]:
            at = lines[ls[0] - 1][:300] if ls else ""
            ck.violation("rustc: %s at: %s" % (m[:300], at), at + "\n" + m, key="rs:" + m[:80] + at)
    if rc or not ok:
        return
    rc, so, se = vk.run([p + ".exe"], timeout=60)
    rows = so.split("\n")
    if rc or "end" not in rows:
        ck.violation("the program that calls every item ends with %s" % vk.describe_exit(rc), so[-2000:] + se[-2000:])
    seen = set()
    for l in rows:
        if " " in l:
            a, b = map(int, l.split())
            seen.add(a)
            if a != b:
                ck.violation("%s: reached %s" % (every[a].what, "something else of the same name" if b == a + 50000 else "value %d instead of %d" % (b, a)), l, key="row:" + every[a].what)
    miss = [i for i in every if i not in seen]
    if miss and rc == 0:
        raise AssertionError("no row for %s" % every[miss[0]].what)
    ck.count("evaluations", len(seen))
    ck.cov["samples"] = [every[i].what for i in list(every)[::97]]


# ---- symbols ---------------------------------------------------------------
SNS = ["", "a", "a::b", "b", "T", "box", "f"]
SN = ["f", "T", "p", "a", "exception", "string", "len", "drop", "get", "eq", "new"]


def declarations(deep):
    """(class, description, bridge items) with Rust names unique per declaration."""
    out = []
    k = 0

    def uniq():
        nonlocal k
        k += 1
        return k
    A = lambda ns: '#[namespace = "%s"] ' % ns
    for ns in SNS:
        for nm in SN:
            for lang, blk in (("C++", 'unsafe extern "C++" { %s }'), ("Rust", 'extern "Rust" { %s }')):
                out.append(("fn", ns, None, nm, "%s function %s" % (lang, full(ns, nm)), blk % (A(ns) + "fn %s();" % nm)))
            out.append(("fn", ns, None, nm, "C++ function %s with a function pointer" % full(ns, nm), 'unsafe extern "C++" { ' + A(ns) + "fn %s(p: fn(), f: fn()); }" % nm))
    for ns in SNS:
        for nm in SN:
            u = uniq()
            for what, decl, uses in (("C++ type", 'unsafe extern "C++" { %s#[cxx_name = "%s"] type X%d; }', ["UniquePtr", "SharedPtr", "WeakPtr", "CxxVector"]), ("Rust type", 'extern "Rust" { %s#[cxx_name = "%s"] type X%d; }', ["Box", "Vec"]), ("struct", '#[derive(PartialEq, PartialOrd, Hash)] %s#[cxx_name = "%s"] struct X%d { x: u8 }', ["Box", "Vec", "UniquePtr", "SharedPtr", "WeakPtr", "CxxVector"])):
                d = decl % (A(ns), nm, u)
                out.append(("type", ns, nm, None, "%s %s with every container" % (what, full(ns, nm)), d + "".join(" impl %s<X%d> {}" % (c, u) for c in uses)))
                for mns in SNS:
                    for m in SN:
                        out.append(("method", mns, (ns, nm), m, "method %s of %s %s in namespace %s" % (m, what, full(ns, nm), repr(mns)), d + (' unsafe extern "C++" { ' if what == "C++ type" else ' extern "Rust" { ') + A(mns) + "fn %s(self: &X%d); }" % (m, u)))
                if what == "struct":
                    continue
                # types with one Rust name (in different modules) and methods with function pointers
                d = decl.replace("X%d", "X") % (A(ns), nm)
                for mns in ("", "a", "T"):
                    for m in ("f", "T", "get"):
                        sig = "fn %s(self: &X)" % m
                        if what == "C++ type":
                            out.append(("method", mns, (ns, nm), m, "method %s with function pointers of C++ type %s known as X in namespace %s" % (m, full(ns, nm), repr(mns)), d + ' unsafe extern "C++" { ' + A(mns) + "fn %s(self: &X, p: fn(), f: fn()); }" % m))
                        else:
                            out.append(("method", mns, (ns, nm), m, "method %s of Rust type %s known as X in namespace %s" % (m, full(ns, nm), repr(mns)), d + ' extern "Rust" { ' + A(mns) + sig + "; }"))
    return out


SYM = re.compile(r"(?<![\w$])([A-Za-z_][\w]*(?:\$[\w]+)+)(?=\s*\()")


def symbols(cc):
    """Names with a $ declared or defined as functions outside of any function body."""
    out = []
    depth = []  # True: a block that is not a namespace or an extern "C" block
    last = 0
    for m in re.finditer(r'[{};]|"(?:[^"\\\n]|\\.)*"|//[^\n]*', cc):
        t = m.group()
        if t[0] in '"/':
            continue
        if t == "{":
            head = cc[last:m.start()].strip()
            outer = bool(re.search(r'(?:\bnamespace(\s+[\w:]+)?|\bextern\s+"C")\s*$', head))
        if not any(depth) and t in "{;":
            seg = cc[last:m.start()]
            if t == ";" or not outer:
                s = SYM.findall(seg)
                if s:
                    out.append(s[0])
        if t == "{":
            depth.append(not outer)
        elif t == "}" and depth:
            depth.pop()
        last = m.end()
    return out


def distinct(ck, g):
    decls = declarations(not ck.quick)
    W = "#[cxx::bridge]\nmod ffi {\n%s\n}"
    res = g.batch([W % d[5] for d in decls])
    # what the runtime itself defines
    so = vk.run(["nm", g.rlib], timeout=60)[1]
    builtin = set(re.findall(r"[TWBDVu] (cxxbridge1\$\S+)", so)) | set(re.findall(r" (cxxbridge1\$\S+)", so))
    if len(builtin) < 100:
        raise AssertionError("no runtime symbols found")
    owner = {}
    n = 0
    for d, r in zip(decls, res):
        if not r.ok:
            ck.violation("%s: rejected: %s" % (d[4], r.err[:200]), d[5])
            continue
        syms = symbols(r.cc)
        ck.count("symbols", len(syms))
        if len(set(syms)) != len(syms):
            twice = [s for s in syms if syms.count(s) > 1][0]
            ck.violation("%s: the symbol %s stands for two things" % (d[4], twice), d[5] + "\n" + r.cc, key="within:%s:%s" % (d[4], twice))
        if not syms:
            raise AssertionError("no symbol for " + d[4])
        for s in set(syms):
            owner.setdefault(s, []).append(d)
            if s in builtin:
                clash(ck, s, d, None)
    for s, ds in owner.items():
        for a, b in itertools.combinations(ds, 2):
            if a[0] == b[0] == "type" and (a[1], a[2]) == (b[1], b[2]) or a[0] == b[0] == "fn" and (a[1], a[3]) == (b[1], b[3]):
                continue  # the same C++ entity, or the same Rust name twice: not one bridge
            if a[0] == b[0] == "fn" and a[3] == b[3]:
                continue  # the Rust names are the same: not one bridge
            if "method" in (a[0], b[0]) and a[0] != b[0] and "type" in (a[0], b[0]):
                m, t = (a, b) if a[0] == "method" else (b, a)
                if (t[1], t[2]) == m[2]:
                    continue  # the symbols of the type itself
            if a[0] == b[0] == "method" and a[2] == b[2]:
                if (a[1], a[3]) == (b[1], b[3]) or "$operator$" in s:
                    continue  # one method, or the derived operators of one type
                if s in own_type(a, owner):
                    continue
            n += 1
            clash(ck, s, a, b)
    ck.count("evaluations", len(decls) * (len(decls) - 1) // 2)
    ck.count("declarations", len(decls))
    ck.count("symbol_clashes", n)
    # macro and generator agree on every symbol
    ds = [(d, r) for d, r in zip(decls, res) if r.ok and (d[0] != "method" or d[1] in ("", "a::b", "T") and d[3] in ("f", "T", "get", "eq"))]
    per = 300
    groups = [ds[i:i + per] for i in range(0, len(ds), per)]

    def one(a):
        q, gr = a
        p = gk.write(os.path.join(ck.work, "x%d.rs" % q), "#![allow(warnings)]\n" + "\n".join("pub mod m%d { pub mod b {\n%s\n} }" % (i, W % d[5]) for i, (d, r) in enumerate(gr)))
        # resolution errors (the Rust items do not exist) come after expansion
        rc, so, se = vk.run(["rustc", "--edition", "2021", "-L", "dependency=" + g.deps, "--extern", "cxx=" + g.rlib, "-Zunpretty=expanded", p, "--crate-type", "lib"], timeout=120)
        parts = re.split(r"pub mod m(\d+) \{", so)
        return [(gr[int(parts[i])], set(re.findall(r'"((?:\w+\$)+\w+)"', parts[i + 1]))) for i in range(1, len(parts) - 1, 2)], len(gr), se
    with vk.pool() as p:
        for rows, want, se in p.map(one, enumerate(groups)):
            if len(rows) != want:
                raise vk.Violation("the macro does not expand bridges the generator accepts: " + se[-600:], se)
            for (d, r), rust in rows:
                cc = set(symbols(r.cc))
                # what the runtime provides may be mentioned on one side only
                ck.count("agreements")
                if cc - builtin != rust - builtin:
                    ck.violation("%s: symbols only in C++ %s, only in Rust %s" % (d[4], sorted(cc - rust - builtin)[:3], sorted(rust - cc - builtin)[:3]), d[5] + "\n" + r.cc, key="agree:" + d[4])


def own_type(d, owner):
    return {s for s, ds in owner.items() for x in ds if x[0] == "type" and (x[1], x[2]) == d[2]}


def clash(ck, s, a, b):
    if b is None:
        # what the item is called is what makes it clash
        key = "runtime:" + ((a[2][1] if a[0] == "method" else a[2] or a[3]) if not a[1] else s)
        what = "%s has the symbol %s of the runtime" % (a[4], s)
    elif a[0] == b[0] == "method" and a[1] == b[1] and a[3] == b[3] and a[2][1] == b[2][1]:
        key = "methods:same-named-types-in-different-namespaces"
        what = "methods with the same name and namespace of types with the same C++ name in different namespaces, such as %s and %s, share the symbol %s" % (a[4], b[4], s)
    else:
        key = "pair:%s|%s" % tuple(sorted((a[4], b[4])))
        what = "%s and %s share the symbol %s" % (a[4], b[4], s)
    ck.violation(what, a[5] + "\n" + (b[5] if b else ""), key=key)


# ---- names that mean something to the generated code -----------------------
HOSTILE = ["std", "rust", "cxx", "core", "alloc", "string", "vector", "unique_ptr", "size_t", "uint8_t", "String", "detail", "Result", "Option", "Some", "Ok", "Err", "result", "error", "ret", "repr", "this_", "r", "x", "f", "T", "U", "Impl", "Error", "Fn", "trampoline", "layout", "size", "align", "ptr", "len",
           "impl_", "operator_", "value", "other", "lhs", "rhs", "out", "unsafe_bitcopy", "relocatable_or_array", "repr_fat", "memory", "hash", "main", "ffi", "Vec2", "u8", "i32", "bool_", "Self_", "match_", "__", "_x", "X_", "crate_", "Default", "Clone", "Drop", "Send", "Sync", "Unpin", "Sized", "Copy",
           "Pin", "NonNull", "ManuallyDrop", "MaybeUninit", "c_void", "r#match", "r#type", "r#move", "r#loop", "r#where", "r#ref", "r#in", "r#fn", "r#return", "r#extern", "r#try", "r#const", "operator_eq_Zz", "sizeof_Zz", "alignof_Zz", "drop", "clone", "eq", "cmp", "fmt", "from", "sizeof_Zr", "alignof_Zr"]


CPP_KEYWORDS = ("return", "extern", "try", "const")  # reached through cxx_name below


def hostile(ck, g):
    """One bridge per name and role: both compilers have to accept it."""
    roles = {
        "struct": ("#[derive(PartialEq, PartialOrd, Hash, Clone, Debug, Default, Eq, Ord)] struct @ { zz: u8 } unsafe extern \"C++\" { fn vk(a: @, b: &@) -> @; fn vw(a: &[@], b: UniquePtr<@>) -> Vec<@>; }", "", ""),
        "field": ("#[derive(PartialEq, PartialOrd, Hash, Clone, Debug, Default, Eq, Ord)] struct Zz { @: String, zz: u8 } unsafe extern \"C++\" { fn vk(a: Zz) -> Result<Zz>; }", "", ""),
        "enum": ("enum @ { Zz } unsafe extern \"C++\" { fn vk(a: @) -> @; fn vw(a: Vec<@>) -> Result<UniquePtr<CxxVector<@>>>; }", "", ""),
        "variant": ("#[derive(Debug, Hash, PartialOrd, Ord)] enum Zz { @, Yy } unsafe extern \"C++\" { fn vk(a: Zz) -> Zz; }", "", ""),
        "C++ type": ("unsafe extern \"C++\" { type @; fn vk(a: &@) -> UniquePtr<@>; fn vw(a: &@, b: SharedPtr<@>) -> Result<&CxxVector<@>>; }", "struct @ {};", ""),
        "Rust type": ("extern \"Rust\" { type @; fn vk(a: &@) -> Box<@>; fn vw(a: Vec<@>) -> Result<Box<@>>; }", "", "pub struct @ { _q: i8 } fn vk(a: &@) -> ::std::boxed::Box<@> { loop {} } fn vw(a: ::std::vec::Vec<@>) -> ::std::result::Result<::std::boxed::Box<@>, ::std::string::String> { loop {} }"),
        "C++ function": ("#[derive(PartialEq)] struct Zz { zz: u8 } unsafe extern \"C++\" { fn @(a: String, b: fn(u8) -> String) -> Result<String>; }", "", ""),
        "C++ method": ("unsafe extern \"C++\" { type Zz; fn @(self: &Zz, a: String) -> Result<String>; }", "struct Zz { rust::String @(rust::String) const; };", ""),
        "Rust function": ("#[derive(PartialEq)] struct Zz { zz: u8 } extern \"Rust\" { type Zr; fn @(a: String) -> Result<String>; }", "", "pub struct Zr; fn @(a: ::std::string::String) -> ::std::result::Result<::std::string::String, ::std::string::String> { loop {} }"),
        "Rust method": ("extern \"Rust\" { type Zz; fn @(self: &mut Zz, a: String) -> Result<String>; }", "", "pub struct Zz; impl Zz { fn @(&mut self, a: ::std::string::String) -> ::std::result::Result<::std::string::String, ::std::string::String> { loop {} } }"),
        "C++ argument": ("unsafe extern \"C++\" { fn vk(@: String, zz: fn(u8) -> u8) -> Result<String>; fn vw(@: UniquePtr<CxxString>) -> UniquePtr<CxxString>; fn vx(@: fn(&str) -> u8) -> String; }", "", ""),
        "Rust argument": ("extern \"Rust\" { fn vk(@: String) -> Result<String>; fn vw(@: &str, zz: &[u8]) -> Vec<u8>; }", "", "fn vk(@: ::std::string::String) -> ::std::result::Result<::std::string::String, ::std::string::String> { loop {} } fn vw(@: &str, zz: &[u8]) -> ::std::vec::Vec<u8> { loop {} }"),
        "namespace": ("#[namespace = \"a::@\"] #[derive(Hash, PartialEq)] struct Zz { zz: u8 } #[namespace = \"a::@\"] unsafe extern \"C++\" { type Ty; fn vk(a: &Ty, s: String) -> Result<Zz>; fn vw(self: &Ty, s: UniquePtr<CxxString>) -> UniquePtr<Ty>; }", "", ""),
    }
    cases = []
    for role, (_, _, rs) in roles.items():
        for nm in HOSTILE:
            # double underscores are reserved; these types are built in; the rest no Rust programmer could declare
            if ("__" in nm or role == "namespace" and nm.startswith("r#") or nm in ("u8", "i32", "String") and role in ("struct", "enum", "C++ type", "Rust type") or nm in ("cxx", "ffi") and role == "Rust type"
                    or nm in ("Some", "Ok", "Err") and role.endswith("argument")):
                continue
            if nm[2:] in CPP_KEYWORDS:
                if not re.search("(function|method)$", role):
                    continue
                b = roles[role][0].replace("fn @", '#[cxx_name = "kk"] fn @')
                h = roles[role][1].replace("@", "kk")
            else:
                b, h = roles[role][:2]
            cases.append((role, nm, b.replace("@", nm), h.replace("@", nm.replace("r#", "")), rs.replace("@", nm)))
    wrap = '#[cxx::bridge(namespace = "zz")]\npub mod ffi {\nunsafe extern "C++" { include!("h%d.h"); }\n%s\n}'
    src = [wrap % (i, c[2]) for i, c in enumerate(cases)]
    res = g.batch(src)
    d = os.path.join(ck.work, "h")
    jobs, mods = [], []
    decl = {"C++ function": "rust::String @(rust::String, rust::Fn<rust::String(std::uint8_t)>);"}
    for i, (c, r) in enumerate(zip(cases, res)):
        role, nm, b, h, rs = c
        cn = "kk" if nm[2:] in CPP_KEYWORDS else nm.replace("r#", "")
        if not r.ok:
            if r.st > 1 or not reserved(nm, role):
                ck.violation("the name %s as %s: %s %s" % (nm, role, gk.STATUS[r.st], r.err[:200]), src[i] + r.err)
            continue
        pre = {"struct": "struct @; @ vk(@, @ const &); rust::Vec<@> vw(rust::Slice<@ const>, std::unique_ptr<@>);", "field": "struct Zz; Zz vk(Zz);", "enum": "enum class @ : std::uint8_t; @ vk(@); std::unique_ptr<std::vector<@>> vw(rust::Vec<@>);", "variant": "enum class Zz : std::uint8_t; Zz vk(Zz);",
               "C++ type": "struct @ {}; std::unique_ptr<@> vk(@ const &); std::vector<@> const &vw(@ const &, std::shared_ptr<@>);", "C++ function": "rust::String @(rust::String, rust::Fn<rust::String(std::uint8_t)>);", "C++ method": h,
               "C++ argument": "rust::String vk(rust::String, rust::Fn<std::uint8_t(std::uint8_t)>); std::unique_ptr<std::string> vw(std::unique_ptr<std::string>); rust::String vx(rust::Fn<std::uint8_t(rust::Str)>);"}.get(role, "").replace("@", cn)
        # the user's own declarations have to survive a namespace called std
        pre = pre.replace("std::", "::std::").replace("rust::", "::rust::")
        body = "namespace zz { %s }" % pre
        if role == "namespace":
            body = "namespace a { namespace %s { struct Zz; struct Ty { ::std::unique_ptr<Ty> vw(::std::unique_ptr<::std::string>) const; }; Zz vk(Ty const &, ::rust::String); } }" % cn
        gk.write(os.path.join(d, "h%d.h" % i), '#pragma once\n#include "rust/cxx.h"\n#include <memory>\n#include <string>\n#include <vector>\n' + body)
        jobs.append((i, (gk.write(os.path.join(d, "h%d.cc" % i), r.cc), ("-fsyntax-only", "-w"), "g++", "c++17")))
        mods.append((i, rs + "\n" + src[i]))
    for (i, j), (rc, errs, se) in zip(jobs, g.cxx_many([j for i, j in jobs])):
        ck.count("evaluations")
        if rc:
            ck.violation("the name %s as %s: the generated C++ does not compile: %s" % (cases[i][1], cases[i][0], errs[0][2] if errs else se[-300:]), src[i] + "\n" + se[:4000], key="name:%s@%s" % (cases[i][1], cases[i][0].replace(" ", "_")))
    for (i, m), e in zip(mods, g.verdicts([m for i, m in mods], tag="hv", per=150)):
        if e:
            ck.violation("the name %s as %s: rustc: %s" % (cases[i][1], cases[i][0], e[0][:300]), src[i] + "\n" + "\n".join(e), key="name:%s@%s" % (cases[i][1], cases[i][0].replace(" ", "_")))


def reserved(nm, role):
    return role in ("struct", "enum", "C++ type", "Rust type") and nm in ("Vec", "String", "Box", "u8", "i32", "Fn")


def run(ck):
    g = gk.Gen(ck)
    placements(ck, g)
    ck.log("placements")
    distinct(ck, g)
    ck.log("symbols")
    hostile(ck, g)
    ck.log("names")
    ck.cov["distinct_nontrivial"] = ck.cov.get("declarations", 0) + ck.cov.get("rows", 0)
    ck.cov["rule"] = ("every item kind x module, block and item namespace x cxx_name x rust_name, called in a linked program with decoys under every other name; all pairs of %d declarations over %d namespaces and %d names for distinct symbols, "
                      "macro against generator; %d names of other meaning in every role" % (ck.cov.get("declarations", 0), len(SNS), len(SN), len(HOSTILE)))
    ck.assumptions += ["The symbols of an item depend only on the item and the types it names",
                       "C++ keywords as names are up to the user to rename"]
