"""C22: the command line tool, the build script generator, the embedding library and the macro agree; the command line does what it says."""
import itertools, os, re, shutil, subprocess
import fsx, gk, vk
from checks import c18
LEVEL = "exploration"

# a bridge with everything in it
BASE = '''#[cxx::bridge(namespace = "n::s")]
mod ffi {
    struct S { x: u8, s: String }
    #[derive(Hash, PartialEq, PartialOrd)]
    enum E { A, B = 5 }
    extern "Rust" {
        type R;
        fn r(self: &R, s: &str) -> Result<String>;
        fn free(b: Box<R>, v: Vec<S>);
    }
    unsafe extern "C++" {
        include!("inc/own.h");
        include!(<vector>);
        type C;
        fn c(self: &C, f: fn(u8) -> u8) -> Result<UniquePtr<C>>;
        fn cxx(s: S) -> SharedPtr<C>;
        fn cxx2(e: E) -> &'static CxxVector<C>;
    }
    impl CxxVector<S> {}
    impl WeakPtr<C> {}
}
'''
# what may surround a bridge in its file: name -> f(text)
AROUND = {
    "nothing": lambda b: b,
    "a byte order mark": lambda b: "\ufeff" + b,
    "a shebang": lambda b: "#!/usr/bin/env run-cargo-script\n" + b,
    "an empty shebang": lambda b: "#!\n" + b,
    "a spaced inner attribute": lambda b: "#! [allow(\ndead_code)]\n" + b,
    "carriage returns": lambda b: b.replace("\n", "\r\n"),
    "tabs": lambda b: b.replace("    ", "\t"),
    "one line": lambda b: " ".join(b.split()),
    "no final newline": lambda b: b.rstrip(),
    "inner documentation": lambda b: "//! Hello\n" + b,
    "inner attributes": lambda b: "#![allow(dead_code)]\n#![doc = \"x\"]\n" + b,
    "a shebang and inner attributes": lambda b: "#!/bin/x\n#![allow(dead_code)]\n" + b,
    "a module": lambda b: "mod m { %s }" % b,
    "two modules": lambda b: "pub mod m { pub(crate) mod k { use super::*; %s } fn f() {} }" % b,
    "items before": lambda b: "use std::fmt; pub struct Q<T: fmt::Debug>(T); fn f() -> impl Fn() { || () }\n" + b,
    "items after": lambda b: b + "\nimpl Drop for X { fn drop(&mut self) {} } const K: usize = 1; static Y: u8 = 0; trait T { type A; } union U { a: u8 }",
    "macros": lambda b: "macro_rules! m { ($a:tt) => { #[cxx::bridge] mod x { bad } } }\nm! { ### $ }\n" + b + "\nm!(x);",
    "a bridge in a string": lambda b: 'const S: &str = r##"#[cxx::bridge] mod x { bad }"##;\n' + b,
    "a bridge in a comment": lambda b: "/* #[cxx::bridge] mod x { /* bad */ } */\n// #[cxx::bridge] mod y {}\n" + b,
    "another module": lambda b: "mod other { fn f() {} }\nmod empty {}\n" + b,
    "an attribute before": lambda b: b.replace("#[cxx::bridge", "#[allow(dead_code)]\n#[cxx::bridge", 1),
    "an attribute after": lambda b: b.replace("mod ffi", "#[allow(dead_code)] mod ffi", 1),
    "documentation before": lambda b: "/// of the bridge\n" + b,
    "documentation after": lambda b: b.replace("mod ffi", "/// of the bridge\nmod ffi", 1),
    "visibility": lambda b: b.replace("mod ffi", "pub(crate) mod ffi", 1),
    "another name": lambda b: b.replace("mod ffi", "mod r#fn", 1),
    "an unsafe module": lambda b: b.replace("mod ffi", "unsafe mod ffi", 1),
}
# what every front end has to refuse: name -> file
BAD = {
    "nothing at all": "",
    "no bridge": "fn f() {}\n",
    "syntax": "#[cxx::bridge]\nmod ffi { struct }\n",
    "unbalanced": "#[cxx::bridge]\nmod ffi { struct S { x: u8 }\n",
    "syntax elsewhere": "fn f( {}\n" + BASE,
    "unknown type": '#[cxx::bridge]\nmod ffi { extern "Rust" { fn f(x: Nope); } }\n',
    "unsupported type": '#[cxx::bridge]\nmod ffi { extern "Rust" { fn f(x: (u8, u8)); } }\n',
    "unsupported item": "#[cxx::bridge]\nmod ffi { fn f() {} }\n",
    "trait": "#[cxx::bridge]\nmod ffi { trait T {} }\n",
    "opaque by value": '#[cxx::bridge]\nmod ffi { extern "Rust" { type R; fn f(x: R); } }\n',
    "defined twice": '#[cxx::bridge]\nmod ffi { struct S { x: u8 } struct S { y: u8 } }\n',
    "function defined twice": '#[cxx::bridge]\nmod ffi { extern "Rust" { fn f(); fn f(); } }\n',
    "unknown ABI": '#[cxx::bridge]\nmod ffi { extern "D" { fn f(); } }\n',
    "no ABI": '#[cxx::bridge]\nmod ffi { extern { fn f(); } }\n',
    "empty struct": "#[cxx::bridge]\nmod ffi { struct S {} }\n",
    "tuple struct": "#[cxx::bridge]\nmod ffi { struct S(u8); }\n",
    "recursive struct": "#[cxx::bridge]\nmod ffi { struct S { x: S } }\n",
    "generic struct": "#[cxx::bridge]\nmod ffi { struct S<T> { x: T } }\n",
    "enum with data": "#[cxx::bridge]\nmod ffi { enum E { A(u8) } }\n",
    "discriminant out of range": "#[cxx::bridge]\nmod ffi { #[repr(u8)] enum E { A = 256 } }\n",
    "derive of nothing known": "#[cxx::bridge]\nmod ffi { #[derive(Zzz)] struct S { x: u8 } }\n",
    "namespace": '#[cxx::bridge(namespace = "1::x")]\nmod ffi { struct S { x: u8 } }\n',
    "bridge argument": '#[cxx::bridge(what = "x")]\nmod ffi { struct S { x: u8 } }\n',
    "attribute": "#[cxx::bridge]\nmod ffi { #[repr(packed)] struct S { x: u8 } }\n",
    "module without a body": "#[cxx::bridge]\nmod ffi;\n",
    "type alias": "#[cxx::bridge]\nmod ffi { type X = 1; }\n",
    "async": '#[cxx::bridge]\nmod ffi { extern "Rust" { async fn f(); } }\n',
    "variadic": '#[cxx::bridge]\nmod ffi { unsafe extern "C++" { fn f(x: u8, ...); } }\n',
    "impl of a foreign type": "#[cxx::bridge]\nmod ffi { impl Vec<u8> {} }\n",
    "include of a number": '#[cxx::bridge]\nmod ffi { unsafe extern "C++" { include!(1); } }\n',
    "second bridge is bad": BASE + "#[cxx::bridge]\nmod ffi2 { struct T {} }\n",
    "first bridge is bad": "#[cxx::bridge]\nmod ffi2 { struct T {} }\n" + BASE,
}
ANN = "ANNOTATION_OF_C22"


def run(ck):
    g = gk.Gen(ck)
    cli = gk.build_cli(ck)
    base = fsx.prepare(ck)
    try:
        front_ends(ck, g, cli, base)
        includes(ck, g)
        annotations(ck, g)
        command_line(ck, g, cli)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    ck.cov["rule"] = "distinct bridges through all front ends plus distinct command lines"


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


def through_cli(ck, cli, base, items, tag):
    """(header, source) as bytes or None of each file, by the command line tool."""
    d = os.path.join(base, "cli" + tag)
    os.makedirs(d)

    def one(a):
        k, src = a
        p = os.path.join(d, "%d.rs" % k)
        with open(p, "wb") as f:
            f.write(src.encode())
        h, c = p[:-3] + ".h", p[:-3] + ".cc"
        rc, so, se = vk.run([cli, p, "-o", h, "-o", c])
        if rc and (os.path.exists(h) or os.path.exists(c)):
            return "output", None, se
        return None if rc else (read(h), read(c)), rc, se
    with vk.pool() as p:
        return list(p.map(one, list(enumerate(items))))


def through_build(ck, base, items, ok, tag):
    """The same by cxx_build::bridges; those expected to fail run alone, the others together."""
    h = os.path.join(base, "build" + tag)
    os.makedirs(os.path.join(h, "src"))
    for k, src in enumerate(items):
        with open(os.path.join(h, "src/b%d.rs" % k), "wb") as f:
            f.write(src.encode())
    out = [None] * len(items)

    def go(ks, n):
        t = os.path.join(h, "target%s" % n)
        os.makedirs(os.path.join(t, "out"))
        open(os.path.join(t, "CACHEDIR.TAG"), "w").close()
        rc, so, se = vk.run([os.path.join(base, "fe"), "noargs", "bridge=" + ",".join("src/b%d.rs" % k for k in ks)], cwd=h, env=fsx.clean_env(CARGO_MANIFEST_DIR=h, OUT_DIR=t + "/out", CARGO_PKG_NAME="p"))
        if rc and len(ks) > 1:
            return [go([k], "%s_%d" % (n, k))[0] for k in ks]
        r = []
        for k in ks:
            x = t + "/out/cxxbridge/%s/p/src/b%d.rs.%s"
            a = read(x % ("include", k, "h")), read(x % ("sources", k, "cc"))
            r.append((None if rc else a, rc, se, bool(rc and (a[0] is not None or a[1] is not None))))
        shutil.rmtree(t, ignore_errors=True)
        return r
    good = [k for k in range(len(items)) if ok[k]]
    groups = [good[i:i + 40] for i in range(0, len(good), 40)] + [[k] for k in range(len(items)) if not ok[k]]
    with vk.pool() as p:
        for ks, r in zip(groups, p.map(lambda a: go(a[1], a[0]), list(enumerate(groups)))):
            for k, x in zip(ks, r):
                out[k] = x
    return out


def front_ends(ck, g, cli, base):
    atoms = {**c18.typed_atoms(), **c18.item_atoms()}
    names, srcs, lex = [], [], []
    for n, a in atoms.items():
        at = a(1)
        names.append(n)
        srcs.append(c18.bridge([at], ["user.h"] if at[2] else []))
    for n, f in AROUND.items():
        names.append("surrounded by " + n)
        srcs.append(f(BASE))
    for (n, f), (m, f2) in itertools.permutations(AROUND.items(), 2):
        # two at a time, where the order makes sense to Rust
        if n == "nothing" or m == "nothing":
            continue
        full = f(f2(BASE))
        t = re.sub(r"#! \[allow\(\s*dead_code\)\]", "#![allow(dead_code)]", full)
        if "\ufeff" in t[1:] or re.search(r".#!(/|\r?\n)", t, re.S) and not t.startswith("\ufeff#!"):
            continue
        if t.count("#![") and not re.match(r"\ufeff?(#!(/[^\n]*)?\s*)?(//[^\n]*\s*)?#!\[", t) or "//!" in t and not re.match(r"\ufeff?(#!(/[^\n]*)?\s*)?(#!\[[^\n]*\s*)*//!", t):
            continue
        if re.search(r"(pub\(crate\)|unsafe)\s+(#|/|pub)|///[^\n]*\s*(//!|#!)", t):
            continue
        if "one line" in (n, m) and ("//" in f2(BASE) or "//" in f(BASE) or n == "one line" and "#!" in t):
            continue
        names.append("surrounded by %s in %s" % (m, n))
        srcs.append(full)
    good = len(names)
    for n, b in BAD.items():
        names.append("bad: " + n)
        srcs.append(b)
        if not n.startswith(("syntax", "unbal", "nothing")):
            for m in ("a byte order mark", "a shebang", "a module", "items before"):
                names.append("bad: %s in %s" % (n, m))
                srcs.append(AROUND[m](b))
    # a shebang is no token
    strip = [re.sub(r"^(\ufeff?)#!(?!\s*\[)[^\n]*", r"\1", s) for s in srcs]
    lib = g.batch(strip)
    ok = [r.ok for r in lib]
    plain = lib[names.index("surrounded by nothing")]
    for k, n in enumerate(names):
        if lib[k].st > 1:
            ck.violation("%s: the library: %s" % (n, gk.STATUS[lib[k].st]), srcs[k])
        if n.startswith("bad: ") and ok[k]:
            ck.violation("%s: the library accepts it" % n, srcs[k], key="lib-accepts:" + n.replace(" ", "_"))
        if n.startswith("surrounded") and not ok[k]:
            ck.violation("%s: the library refuses it: %s" % (n, lib[k].err[:200]), srcs[k], key="lib-refuses:" + n.replace(" ", "_"))
        elif n.startswith("surrounded") and (lib[k].header, lib[k].cc) != (plain.header, plain.cc):
            ck.violation("%s: the library generates something else" % n, srcs[k] + "\n----\n" + lib[k].header + lib[k].cc, key="lib-differs:" + n.replace(" ", "_"))
    c = through_cli(ck, cli, base, srcs, "a")
    b = through_build(ck, base, srcs, ok, "a")
    for k, n in enumerate(names):
        want = (lib[k].header.encode(), lib[k].cc.encode()) if ok[k] else None
        for who, got in (("cxxbridge", c[k]), ("cxx-build", b[k])):
            key = who + ":" + n.replace(" ", "_")
            if got[0] == "output" or len(got) > 3 and got[3]:
                ck.violation("%s: %s fails but writes output" % (n, who), srcs[k], key="output:" + key)
            elif (got[0] is None) != (want is None):
                ck.violation("%s: the library %s it, %s %s it: %s" % (n, "accepts" if ok[k] else "refuses", who, "refuses" if ok[k] else "accepts", got[2][-300:] or lib[k].err[:300]), srcs[k], key="accepts:" + key)
            elif got[0] != want:
                i = 0 if got[0][0] != want[0] else 1
                ck.violation("%s: the %s of %s differs from the library's" % (n, ("header", "source")[i], who), "%s\n---- library\n%s\n---- %s\n%s" % (srcs[k], want[i].decode(), who, (got[0][i] or b"(no file)").decode("utf8", "replace")), key="differs:" + key)
            elif want is None and not got[2].strip():
                ck.violation("%s: %s fails without a word" % (n, who), srcs[k], key="silent:" + key)
            elif got[1] is not None and got[1] not in (0, 1, 101):
                ck.violation("%s: %s ends with %d" % (n, who, got[1]), srcs[k] + got[2], key="status:" + key)
    ck.log("%d bridges (%d accepted) through three front ends" % (len(names), sum(ok)))
    # the macro on what the generators refuse
    todo = [k for k in range(len(names)) if not ok[k] and "#[cxx::bridge" in srcs[k] and not names[k].startswith(("bad: unbal", "bad: syntax", "bad: module without", "bad: first", "bad: second")) and "#!" not in srcs[k] and "\ufeff" not in srcs[k]]
    pre = "pub mod a { use cxx::{ExternType, type_id}; pub struct A1(u8); unsafe impl ExternType for A1 { type Id = type_id!(\"A1\"); type Kind = cxx::kind::Trivial; } }\n"
    v = g.verdicts(["pub struct R1; pub struct Q1; impl Q1 { fn f1<T>(&self, t: T) {} } " + srcs[k].replace("crate::a::", "crate::a::") for k in todo], pre, tag="mac")
    for k, m in zip(todo, v):
        if not m:
            ck.violation("%s: the generators refuse it, the macro accepts it: %s" % (names[k], lib[k].err[:200]), srcs[k], key="macro:" + names[k].replace(" ", "_"))
    ck.log("%d refused bridges through the macro" % len(todo))
    ck.count("evaluations", 3 * len(names) + len(todo))
    ck.count("distinct_nontrivial", len(names))
    for k in range(0, len(names), len(names) // 4):
        ck.sample(names[k])


# ---------------------------------------------------------------- library options
INC = ["<vector>", '"a.h"', '"dir/b c.h"', "<sys/types.h>", '"rust/cxx.h"', '"ä.h"']


def includes(ck, g):
    """Every list of includes: all of them, in order, before anything else; nothing else changes."""
    depth = ck.pick(2, 3)
    srcs = [BASE, "#[cxx::bridge]\nmod ffi { struct S { x: u8 } }\n", '#[cxx::bridge]\nmod ffi { extern "Rust" { fn f(a: &[isize]) -> Result<String>; } }\n', '#[cxx::bridge]\nmod ffi { unsafe extern "C++" { fn f(a: &[u8]) -> Result<SharedPtr<CxxString>>; } }\n']
    lists = [l for n in range(depth + 1) for l in itertools.product(INC, repeat=n)]
    base = g.batch(srcs)
    # with the runtime's header nothing of it is repeated; the same for any position in the list
    withcxx = g.batch([(s, "", "", '"rust/cxx.h"') for s in srcs])
    todo = [(s, l) for s in range(len(srcs)) for l in lists]
    for (s, l), r in zip(todo, g.batch([(srcs[s], "", "", "\n".join(l)) for s, l in todo])):
        if not r.ok:
            ck.violation("with the includes %s: %s" % (" ".join(l), r.err[:200]), srcs[s])
            continue
        ref = withcxx[s] if '"rust/cxx.h"' in l else base[s]
        for what, text, want in (("header", r.header, ref.header), ("source", r.cc, ref.cc)):
            lines = [x for x in text.split("\n")]
            # take the expected lines away, in order
            exp = ["#include " + x.replace("ä", "\\u{e4}") for x in l]
            alt = ["#include " + x for x in l]
            rest, e = [], 0
            for x in lines:
                if e < len(exp) and x in (exp[e], alt[e]):
                    e += 1
                else:
                    rest.append(x)
            w = want.split("\n")
            if '"rust/cxx.h"' in l:
                w.remove('#include "rust/cxx.h"')
            if e < len(exp) or rest != w:
                ck.violation("includes %s: %s" % (" ".join(l) or "none", "the %s does not have them in order" % what if e < len(exp) else "the rest of the %s changes" % what), text, key="includes:%s" % what)
    ck.count("evaluations", len(todo))
    ck.log("%d lists of includes" % len(todo))


def annotations(ck, g):
    """The annotation is on everything in C++ that Rust calls, and nothing else changes."""
    atoms = {**c18.typed_atoms(), **c18.item_atoms()}
    names = [n for n in atoms if ck.quick is False or n in c18.item_atoms() or re.search(r" (C|S|R|E|String|u8|\w+Ptr \S+|Vec \S+|Box \S+|fn\S*)$", n)]
    srcs = {n: c18.bridge([atoms[n](1)], ["user.h"] if atoms[n](1)[2] else []) for n in names}
    base = g.batch([srcs[n] for n in names])
    ann = '__attribute__((visibility("default")))'
    res = g.batch([(srcs[n], "", ann, "") for n in names])
    res2 = g.batch([(srcs[n], "", ANN, "") for n in names])
    W = os.path.join(ck.work, "ann")
    todo = []
    for n, b, r, r2 in zip(names, base, res, res2):
        if not b.ok:
            continue
        for what, x, y, z in (("header", b.header, r.header, r2.header), ("source", b.cc, r.cc, r2.cc)):
            if y.replace(ann + " ", "") != x or z.replace(ANN + " ", "") != x:
                ck.violation("%s: the annotation changes the %s elsewhere" % (n, what), x + "\n----\n" + z, key="annotation:" + n.replace(" ", "_"))
        todo.append((n, r))

    def one(a):
        k, (n, r) = a
        d = os.path.join(W, str(k))
        gk.write(os.path.join(d, "user.h"), c18.user_header(srcs[n]))
        f = gk.write(os.path.join(d, "b.cc"), r.cc)
        rc, errs, se = g.cxx(f, ["-c", "-w", "-fvisibility=hidden", "-o", os.path.join(d, "b.o")], "g++", "c++17")
        if rc:
            return n, "does not compile: " + (errs[0][2] if errs else se[-200:])
        hidden = []
        for l in vk.run(["readelf", "-sW", os.path.join(d, "b.o")])[1].splitlines():
            w = l.split()
            if len(w) >= 8 and w[3] == "FUNC" and w[4] == "GLOBAL" and w[6] != "UND" and "cxxbridge1$" in w[7] and w[5] != "DEFAULT":
                hidden.append(w[7])
        return n, "%s is hidden" % hidden[0] if hidden else None
    with vk.pool() as p:
        for n, bad in p.map(one, list(enumerate(todo))):
            if bad:
                ck.violation("annotation: %s: %s" % (n, bad), srcs[n], key="hidden:" + n.replace(" ", "_"))
    ck.count("evaluations", len(todo))
    ck.log("%d bridges with an annotation" % len(todo))


# ---------------------------------------------------------------- command line
OUTS = ["x.h", "y.hh", "z.hpp", "w.cc", "v.cpp", "noext", "-", "a.h.cc", "h", "sub/b.h", "sub/b.cc", ".h", "c.H", "old.h", "old.cc"]
INPUTS = {
    "good": "good.rs", "other": "other.rs", "bad": "bad.rs", "syntax": "syntax.rs", "nobridge": "nobridge.rs", "missing": "missing.rs", "directory": "sub", "not UTF-8": "latin.rs",
    "stdin": "-", "bad stdin": "-", "none": None, "odd name": "a b.h",
}
OK = {"good": 0, "other": 1, "stdin": 0, "odd name": 0}
OTHER = '#[cxx::bridge]\nmod ffi { extern "Rust" { fn other(x: &str) -> u8; } }\n'


def wants_header(o):
    return o.endswith((".h", ".hh", ".hpp"))


def command_line(ck, g, cli):
    W = os.path.join(ck.work, "cl")
    shutil.rmtree(W, ignore_errors=True)
    runtime = open("/repo/include/cxx.h", "rb").read()
    opts = [(), ("<vector>",), ("a.h",), ("a.h", "<b>"), ("<b>", "a.h"), ("a.h", "a.h"), ("rust/cxx.h",), ("<c",), ("d>",)]
    anns = ["", ANN]
    lib = {}
    combos = [(s, i, a) for s in (0, 1) for i in opts for a in anns]
    for c, r in zip(combos, g.batch([((BASE, OTHER)[s], "", a, "\n".join(x if x[0] == "<" and x[-1] == ">" else '"%s"' % x for x in i)) for s, i, a in combos])):
        lib[c] = (r.header.encode(), r.cc.encode())
    lists = [()] + [(o,) for o in OUTS] + list(itertools.permutations(OUTS, 2))
    if not ck.quick:
        lists += list(itertools.permutations([o for o in OUTS if o not in ("y.hh", "v.cpp", "c.H", "sub/b.h", "noext")], 3))
    cases = []
    for inp in INPUTS:
        for hdr in (False, True):
            for l in lists:
                if ck.quick and len(l) == 2 and inp not in ("good", "none") and not (inp in ("bad", "stdin") and l[0] in ("x.h", "w.cc", "-")):
                    continue
                for i in opts if len(l) < 2 else opts[:1]:
                    for a in anns if len(l) < 2 and (i in opts[:2] or not ck.quick) else anns[:1]:
                        if ck.quick and inp not in ("good", "other") and (i not in opts[:2]):
                            continue
                        if len(l) == 3 and inp not in ("good", "bad", "none"):
                            continue
                        for style in (0, 1, 2) if len(l) < 2 and inp in ("good", "none", "bad") and i in opts[:4] else (0,):
                            cases.append((inp, hdr, l, i, a, style))
    # two at once with failing outputs
    for l in (("nodir/x.h",), ("nodir/w.cc",), ("sub",), ("x.h", "nodir/w.cc"), ("nodir/x.h", "w.cc")):
        for inp in ("good", "none", "bad"):
            cases.append((inp, True, l, (), "", 0))
            cases.append((inp, False, l, (), "", 0))

    def one(a):
        n, (inp, hdr, l, i, ann, style) = a
        d = os.path.join(W, str(n))
        os.makedirs(os.path.join(d, "sub"))
        for f, t in (("good.rs", BASE), ("other.rs", OTHER), ("bad.rs", BAD["opaque by value"]), ("syntax.rs", BAD["syntax"]), ("nobridge.rs", BAD["no bridge"]), ("a b.h", BASE)):
            with open(os.path.join(d, f), "w") as fh:
                fh.write(t)
        with open(os.path.join(d, "latin.rs"), "wb") as fh:
            fh.write(b"// \xe4\n" + BASE.encode())
        old = b"what was there before\n" * 4000
        for f in ("old.h", "old.cc"):
            with open(os.path.join(d, f), "wb") as fh:
                fh.write(old)
        before = set(os.path.join(r, f) for r, ds, fs in os.walk(d) for f in fs)
        flags = []
        hd = ["--header"] if hdr else []
        ou = [x for o in l for x in (("-o", o), ("--output", o), ("--output=" + o,))[style]]
        ic = [x for o in i for x in (("-i", o), ("--include", o), ("-i" + o,))[style]]
        an = [["--cxx-impl-annotations", ann], ["--cxx-impl-annotations=" + ann]][style % 2] if ann else []
        ip = [INPUTS[inp]] if INPUTS[inp] else []
        argv = [hd + ip + ic + an + ou, ip + ou + ic + an + hd, ou + an + ic + hd + ip][style]
        p = subprocess.run([cli] + argv, cwd=d, input={"stdin": BASE, "bad stdin": BAD["opaque by value"]}.get(inp, "").encode(), capture_output=True, timeout=60)
        bad = judge(d, p, inp, hdr, l, i, ann, before, old, lib, runtime)
        shutil.rmtree(d, ignore_errors=True)
        return bad, argv, p
    with vk.pool() as pool:
        for (bad, argv, p), c in zip(pool.map(one, list(enumerate(cases))), cases):
            if bad:
                ck.violation("cxxbridge %s: %s" % (" ".join(argv), bad), "input: %s\nexit status %d\n%s\n----\n%s" % (c[0], p.returncode, p.stderr.decode("utf8", "replace")[:2000], p.stdout.decode("utf8", "replace")[:3000]), key="cli:" + ("_".join(argv)).replace(" ", "_"))
    n = usage(ck, cli, W)
    shutil.rmtree(W, ignore_errors=True)
    ck.log("%d command lines" % (len(cases) + n))
    ck.count("evaluations", len(cases) + n)
    ck.count("distinct_nontrivial", len(cases))
    for c in cases[::len(cases) // 3]:
        ck.sample(str(c))


def judge(d, p, inp, hdr, l, i, ann, before, old, lib, runtime):
    after = {os.path.join(r, f) for r, ds, fs in os.walk(d) for f in fs}
    fails = inp not in OK and not (inp == "none" and hdr)
    unwritable = [o for o in l if o.startswith("nodir/") or o == "sub"]
    if p.returncode < 0 or b"panicked" in p.stderr:
        return "crashes"
    if fails or unwritable:
        if p.returncode == 0:
            return "fails but exits with 0"
        if not p.stderr.strip():
            return "fails without a word"
        if fails:
            if after != before:
                return "fails but writes %s" % sorted(after - before)
            if p.stdout:
                return "fails but prints"
            for f in ("old.h", "old.cc"):
                if read(os.path.join(d, f)) != old:
                    return "fails but changes %s" % f
        return None
    if p.returncode:
        return "fails: " + p.stderr.decode("utf8", "replace")[-200:]
    if p.stderr:
        return "succeeds but complains"
    stdout = b""
    for o in l or ("-",):
        if inp == "none":
            want, kind = runtime, "cxx.h"
        else:
            h = hdr or wants_header(o)
            want, kind = lib[(OK[inp], i, ann)][0 if h else 1], "the header" if h else "the source"
        if o == "-":
            stdout += want
            continue
        got = read(os.path.join(d, o))
        if got is None:
            return "%s is not written" % o
        if got != want:
            return "%s is not %s" % (o, kind)
    if p.stdout != stdout:
        return "what is printed is not %s" % ("everything asked for" if stdout else "nothing")
    for f in after - before:
        if os.path.relpath(f, d) not in l:
            return "writes %s" % os.path.relpath(f, d)
    for f in ("old.h", "old.cc"):
        if f not in l and read(os.path.join(d, f)) != old:
            return "changes %s" % f
    if read(os.path.join(d, "good.rs")) != BASE.encode():
        return "changes its input"
    return None


def usage(ck, cli, W):
    """Command lines that are no good are refused, before anything is read or written."""
    d = os.path.join(W, "usage")
    os.makedirs(d)
    for f, t in (("good.rs", BASE), ("other.rs", OTHER)):
        with open(os.path.join(d, f), "w") as fh:
            fh.write(t)
    n = 0
    for bad in (["good.rs", "other.rs"], ["good.rs", "--what"], ["good.rs", "-x"], ["good.rs", "-o"], ["good.rs", "-i"], ["good.rs", "--cfg"], ["good.rs", "--cfg", "a=b"], ["good.rs", "--cfg", "a=true", "--cfg", "a=false"], ["good.rs", "--cfg", "a", "--cfg", "a=false"], ["good.rs", "--cfg", ""], ["good.rs", "--cfg", "1"], ["good.rs", "--cfg", "a=\"x"],
                ["good.rs", "--header=yes"], ["good.rs", "--cxx-impl-annotations"], [], ["-o", "out.h"], ["-i", "x.h"], ["--output"], ["good.rs", "--cxx-impl-annotations", "A", "--cxx-impl-annotations", "B"]):
        for extra in ([], ["-o", "out.h"], ["-o", "out.cc", "-o", "out.h"]):
            argv = extra + bad
            p = subprocess.run([cli] + argv, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
            n += 1
            left = sorted(set(os.listdir(d)) - {"good.rs", "other.rs"})
            if p.returncode <= 0 or p.stdout or left or not p.stderr or b"panicked" in p.stderr:
                ck.violation("cxxbridge %s: exit status %d, %d bytes printed, files %s" % (" ".join(argv), p.returncode, len(p.stdout), left), p.stderr.decode("utf8", "replace"), key="usage:" + "_".join(argv).replace(" ", "_"))
            for f in left:
                os.unlink(os.path.join(d, f))
    for argv in (["--help"], ["good.rs", "--help"], ["--help", "-o", "out.h"], ["--header", "--help"], ["--version"], ["good.rs", "-o", "out.h", "--version"]):
        p = subprocess.run([cli] + argv, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        n += 1
        if p.returncode or not p.stdout or len(os.listdir(d)) != 2:
            ck.violation("cxxbridge %s: exit status %d, %d bytes printed, files %s" % (" ".join(argv), p.returncode, len(p.stdout), os.listdir(d)), p.stderr.decode("utf8", "replace"), key="usage:" + "_".join(argv))
    return n
