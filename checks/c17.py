"""C17: every type expression to a depth in every position, against the documented rules."""
import os
import gk
import types17 as T
import items17
LEVEL = "exploration"
FIX = '''#[cxx::bridge]
mod ffi {
    #[derive(Clone)]
    struct St { x: i32 }
    enum En { A, B }
    enum XEn { A }
    struct XSt { x: i32 }
    struct Lt<'a> { r: &'a i32 }
    unsafe extern "C++" {
        include!("t.h");
        type Cx;
        type Al = crate::Al;
        type XEn;
        type XSt;
        fn use_al(x: Al);
    }
    extern "Rust" { type Ro; }
    impl Box<Al> {}
    impl Vec<Al> {}
    impl UniquePtr<Al> {}
    impl SharedPtr<Al> {}
    impl WeakPtr<Al> {}
    impl CxxVector<Al> {}
%s
}
'''
HEAD = '''#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
struct Al { int x; };
enum class XEn : std::uint8_t { A = 0 };
struct XSt { std::int32_t x; };
struct St; struct Lt; struct Ro; enum class En : std::uint8_t;
struct Cx { virtual ~Cx(); int x;
%s
};
void use_al(Al x);
'''
PRE = '''pub use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
pub use std::ffi::c_char;
pub use std::pin::Pin;
#[repr(C)] pub struct Al { x: i32 }
unsafe impl cxx::ExternType for Al { type Id = cxx::type_id!("Al"); type Kind = cxx::kind::Trivial; }
pub struct Ro(i32);
pub struct E; impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
'''
CXX = 'unsafe extern "C++" { %s }'
RUST = 'extern "Rust" { %s }'
# name, bridge item, rule, language, result?
POS = [
 ("argument of a safe C++ function", CXX % "fn f(x: @);", lambda t: T.arg_ok(t, "C++", False)),
 ("argument of an unsafe C++ function", CXX % "unsafe fn f(x: @);", lambda t: T.arg_ok(t, "C++", True)),
 ("argument of a safe Rust function", RUST % "fn f(x: @);", lambda t: T.arg_ok(t, "Rust", False)),
 ("argument of an unsafe Rust function", RUST % "unsafe fn f(x: @);", lambda t: T.arg_ok(t, "Rust", True)),
 ("return of a safe C++ function", CXX % "fn f() -> @;", lambda t: T.ret_ok(t, "C++", False, False)),
 ("return of a C++ function with a shared reference argument", CXX % "fn f(x: &u8) -> @;", lambda t: T.ret_ok(t, "C++", False, False)),
 ("return of a C++ function with a mutable reference argument", CXX % "fn f(a: &mut u8) -> @;", lambda t: T.ret_ok(t, "C++", False, True)),
 ("return of an unsafe C++ function", CXX % "unsafe fn f() -> @;", lambda t: T.ret_ok(t, "C++", True, False)),
 ("return of a Rust function", RUST % "fn f(a: &mut u8) -> @;", lambda t: T.ret_ok(t, "Rust", False, True)),
 ("Result of a C++ function", CXX % "fn f(a: &mut u8) -> Result<@>;", lambda t: T.ret_ok(t, "C++", False, True)),
 ("Result of a Rust function", RUST % "fn f(a: &mut u8) -> Result<@>;", lambda t: T.ret_ok(t, "Rust", False, True)),
 ("Result of a method", CXX % "fn f(self: &Cx) -> Result<@>;", lambda t: T.ret_ok(t, "C++", False, False)),
 ("return of a method with mutable receiver", CXX % "fn f(self: Pin<&mut Cx>) -> @;", lambda t: T.ret_ok(t, "C++", False, True)),
 ("argument of a Rust method", RUST % "fn f(self: &Ro, x: @);", lambda t: T.arg_ok(t, "Rust", False)),
 ("struct field", "struct S { f: @ }", T.field_ok),
]


def explore(ck, g, depth):
    types = T.enumerate_types(depth) + [("raw", r) for r in T.RAW]
    n = 0
    for what, item, rule in POS:
        for lo in range(0, len(types), 40000):
            part = types[lo:lo + 40000]
            res = g.batch([FIX % item.replace("@", T.rs(t)) for t in part], quiet=True)
            for t, r in zip(part, res):
                if t == ("raw", "Result<u8>") and "-> @" in item:
                    continue
                n += 1
                want = rule(t)
                ck.count("accepted" if r.ok else "rejected")
                if r.st > 1 or r.ok != want:
                    ck.violation("%s as %s: %s, expected it %s" % (T.rs(t), what, gk.STATUS[r.st] + (" (%s)" % r.err[:200].replace("\n", " ") if r.err else ""), "accepted" if want else "rejected"),
                                 (FIX % item.replace("@", T.rs(t))) + "\n" + r.err, key="%s@%s" % (T.rs(t), what))
    ck.count("evaluations", n)


# name, C++ declaration, bridge item, Rust definition (None: C++ function)
COMPILE = [
 ("argument of a C++ function", "void f#(@C x);", CXX % "unsafe fn f#(x: @R);", None, lambda t: T.arg_ok(t, "C++", True)),
 ("return of a C++ function", "@C f#(std::uint8_t &a);", CXX % "fn f#(a: &mut u8) -> @R;", None, lambda t: t[0] != "fn" and T.ret_ok(t, "C++", False, True)),
 ("Result of a C++ function", "@C f#(std::uint8_t &a);", CXX % "fn f#(a: &mut u8) -> Result<@R>;", None, lambda t: t[0] != "fn" and T.ret_ok(t, "C++", False, True)),
 ("argument of a C++ method", None, CXX % "unsafe fn m#(self: &Cx, x: @R);", None, lambda t: T.arg_ok(t, "C++", True)),
 ("argument of a Rust function", None, RUST % "unsafe fn f#(x: @R);", "pub fn f#(x: @R) {}", lambda t: T.arg_ok(t, "Rust", True)),
 ("return of a Rust function", None, RUST % "fn f#(a: &mut u8) -> @R;", "pub fn f#(a: &mut u8) -> @R { loop {} }", lambda t: T.ret_ok(t, "Rust", False, True)),
 ("Result of a Rust function", None, RUST % "fn f#(a: &mut u8) -> Result<@R>;", "pub fn f#(a: &mut u8) -> Result<@R, E> { loop {} }", lambda t: T.ret_ok(t, "Rust", False, True)),
 ("struct field", None, "struct S#@G { f: @L }", None, T.field_ok),
]


def no_lifetime(t):
    """A reference returned by a function pointer without arguments has no lifetime in Rust."""
    return any(s[0] == "fn" and s[3] is not None and not s[2] and any(x[0] in ("ref", "slice") for x in T.subtypes(s[3])) for s in T.subtypes(t))


def compile_all(ck, g, depth, per=250):
    types = [t for t in T.enumerate_types(depth) if not no_lifetime(t)]
    items = []  # (n, position, type, bridge item, C++ declaration, Rust definition)
    for what, c, b, r, rule in COMPILE:
        for t in types:
            if t[0] == "unit" and what.startswith("arg") or not rule(t):
                continue
            n = str(len(items))
            refs = any(s[0] in ("ref", "slice") for s in T.subtypes(t))
            sub = lambda s: s and s.replace("#", n).replace("@R", T.rs(t)).replace("@C", T.cpp(t)).replace("@G", "<'a>" if refs else "").replace("@L", T.rs(t, "'a" if refs else ""))
            items.append((len(items), what, t, sub(b), sub(c) or "", sub(r) or "", "void m%s(%s x) const;" % (n, T.cpp(t)) if "method" in what else ""))
    groups = [items[i:i + per] for i in range(0, len(items), per)]

    def source(gr):
        src = FIX % "\n".join(i[3] for i in gr)
        head = HEAD % "\n".join(i[6] for i in gr)
        return src, head + "\n".join(i[4] for i in gr) + "\n"

    def one(k_gr):
        k, gr = k_gr
        src, head = source(gr)
        d = os.path.join(ck.work, "k%d" % k)
        gk.write(os.path.join(d, "t.h"), "#pragma once\n" + head)
        bad = []
        r = g.batch([src])[0]
        if not r.ok:
            return [("generator", gr, r.err)]
        rc, errs, se = g.cxx(gk.write(os.path.join(d, "t.cc"), r.cc))
        if rc:
            bad.append(("g++", gr, se))
        p = gk.write(os.path.join(d, "t.rs"), "#![allow(warnings)]\n" + PRE + "pub use ffi::*;\n" + "\n".join(i[5] for i in gr) + "\n" + src)
        rc, errs, se = g.rustc(p, p + ".rmeta", ["--crate-type", "lib", "--emit", "metadata", "--crate-name", "k%d" % k])
        if rc:
            bad.append(("rustc", gr, "\n".join(m for l, m in errs) or se[-500:]))
        return bad
    def bisect(tool, gr):
        """The items of a failing group that fail on their own."""
        if len(gr) == 1:
            return [(gr[0], [b for b in one((gr[0][0] + 100000, gr)) if b[0] == tool])]
        out = []
        for h in (gr[:len(gr) // 2], gr[len(gr) // 2:]):
            if any(b[0] == tool for b in one((h[0][0] + 100000 + len(h), h))):
                out += bisect(tool, h)
                if len(out) > 300:
                    break
        return out
    with gk.vk.pool() as p:
        bad = [b for bs in p.map(one, enumerate(groups)) for b in bs]
        jobs = [(b[0], b[1]) for b in bad]
        for (tool, gr), found in zip(jobs, p.map(lambda j: bisect(*j), jobs)):
            for it, b in found:
                if b:
                    ck.violation("%s as %s is accepted but %s rejects the result: %s" % (T.rs(it[2]), it[1], "the C++ compiler" if tool == "g++" else tool, b[0][2].strip()[:300]),
                                 "\n".join(str(x) for x in source([it])) + "\n" + b[0][2], key="compile:%s@%s" % (T.rs(it[2]), it[1]))
            if not found:
                ck.violation("accepted types that compile one by one do not compile together: " + tool, "\n".join(str(x) for x in source(gr)))
    ck.count("compiled_items", len(items))


def macro(ck, g, cases, tag):
    """The macro reports exactly the bridges that break a rule: its diagnostics carry no error code.
    cases: (description, source, expected)."""
    errs = g.verdicts([b for d, b, w in cases], tag=tag, rounds=1)
    for (d, b, w), e in zip(cases, errs):
        said = [m for m in e if not m.rstrip().endswith("]") or " [E" not in m]
        ck.count("macro_expansions")
        if said if w else not e:
            ck.violation("%s: the macro %s, expected it %s" % (d, "rejects it: " + said[0][:200] if said else "accepts it", "accepted" if w else "rejected"), b + "\n" + "\n".join(e), key="macro:" + d)


def items(ck, g):
    wrap = "#[cxx::bridge]\nmod ffi {\n%s\n}"
    cases = [(d.replace("\n", " "), wrap % b, w) for d, b, w in items17.cases()]
    whole = [(t, t, w) for t, w in items17.files()]
    for (d, b, w), r in zip(cases + whole, g.batch([(b, "*", "", "") for d, b, w in cases + whole])):
        ck.count("evaluations")
        ck.count("accepted" if r.ok else "rejected")
        if r.st > 1 or r.ok != w:
            ck.violation("%s: %s, expected it %s" % (d, gk.STATUS[r.st] + (" (%s)" % r.err[:200].replace("\n", " ") if r.err else ""), "accepted" if w else "rejected"), b + "\n" + r.err, key=d)
    # rustc itself would accept a struct whose only field is configured out
    macro(ck, g, [c for c in cases if c[0] != "#[cfg(any())] on struct field"], "mi")


def run(ck):
    g = gk.Gen(ck)
    items(ck, g)
    ck.log('items')
    deep = ck.pick(2, 3)
    explore(ck, g, deep)
    ck.log('explored')
    mt = T.enumerate_types(2) + [("raw", r) for r in T.RAW if r != "Result<u8>"]
    cases = [("%s as %s" % (T.rs(t), what), FIX % item.replace("@", T.rs(t)), rule(t)) for what, item, rule in POS for t in mt]
    cases = [c for c in cases if not c[2]]  # compile_all has the accepted ones
    for lo in range(0, len(cases), 40000):
        macro(ck, g, cases[lo:lo + 40000], "mt%d_" % lo)
    ck.log('macro')
    base = T.BASE
    if ck.quick:  # one representative of each class of leaf
        T.BASE = [b for b in base if b[0] != "id" or b[1] in ("c_char", "bool", "u8", "String", "CxxString", "St", "En", "Cx", "Al", "Ro", "str")]
    compile_all(ck, g, 2)
    T.BASE = base
    ck.cov["distinct_nontrivial"] = ck.cov["accepted"]
    ck.cov["rule"] = ("every type expression to depth %d over %d leaves in %d positions, and every item-level case, through the C++ generator; the same to depth 2 through the macro; every accepted type to depth 2 "
                      "compiled by g++ and rustc in 8 positions. Non-trivial: accepted" % (deep, len(base), len(POS)))
    ck.cov["samples"] = ["%s as %s -> %s" % (T.rs(t), POS[i % len(POS)][0], "accepted" if POS[i % len(POS)][2](t) else "rejected") for i, t in enumerate(mt[::max(1, len(mt) // 25)])]
    ck.assumptions += ["The rules are the ones the book and the diagnostics of the code state; deeper types only repeat them",
                       "A diagnostic of the macro is an error without a rustc error code"]
