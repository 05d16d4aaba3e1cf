"""C14: layout of shared structs, declaration order, enum representation and discriminants."""
import itertools, os
import gk, vk
LEVEL = "exploration"
W = "#[cxx::bridge]\nmod ffi {\n%s\n}"
REPRS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]
LIM = {}
for b in (8, 16, 32, 64):
    LIM["u%d" % b] = (0, 2 ** b - 1)
    LIM["i%d" % b] = (-2 ** (b - 1), 2 ** (b - 1) - 1)
LIM["usize"], LIM["isize"] = LIM["u64"], LIM["i64"]
CPP = {r: "std::%sint%s_t" % ("u" if r[0] == "u" else "", r[1:]) for r in REPRS}
CPP.update(usize="std::size_t", isize="rust::isize")

# ---- enums -----------------------------------------------------------------
EDGES = sorted({v + d for lo, hi in LIM.values() for v in (lo, hi) for d in (-1, 0, 1)} | {0, 1, 2})
LITS = [("", None, None)] + [(str(v), v, None) for v in EDGES]
LITS += [("-0", 0, None), ("0u8", 0, "u8"), ("255u8", 255, "u8"), ("256u8", 256, "u8"), ("-128i8", -128, "i8"), ("-0i8", 0, "i8"), ("5u16", 5, "u16"), ("7i32", 7, "i32"), ("5_u64", 5, "u64"), ("18446744073709551615u64", 2 ** 64 - 1, "u64"),
         ("-9223372036854775808i64", -2 ** 63, "i64"), ("3usize", 3, "usize"), ("-3isize", -3, "isize"), ("0xff", 255, None), ("0b1_0", 2, None), ("0o17", 15, None), ("1_000", 1000, None), ("--5", 5, None),
         ("1u128", None, "!"), ("1i128", None, "!"), ("1.0", None, "!"), ("'a'", None, "!"), ("true", None, "!"), ("1 + 1", None, "!"), ("X", None, "!"), ("!0", None, "!")]


def enum_oracle(rep, lits):
    """The underlying type and the values, or None where the enum is an error."""
    vals = []
    for text, v, suf in lits:
        if suf == "!":
            return None
        if text == "":
            v = vals[-1] + 1 if vals else 0
        if suf is not None:
            if rep is not None and rep != suf:
                return None
            rep = suf
        vals.append(v)
    if any(not -2 ** 64 < v < 2 ** 64 for v in vals):
        return None
    if rep is None:
        rep = next((r for r in REPRS if LIM[r][0] <= min(vals) and max(vals) <= LIM[r][1]), None)
        if rep is None:
            return None
    if not all(LIM[rep][0] <= v <= LIM[rep][1] for v in vals):
        return None
    return rep, vals


def enum_text(name, rep, lits):
    return "%senum %s { %s }" % ("#[repr(%s)] " % rep if rep else "", name, ", ".join("V%d%s" % (i, " = " + l[0] if l[0] else "") for i, l in enumerate(lits)))


def enums(ck, g):
    n3 = ck.pick([None], [None, "u8", "i64", "usize"])
    cases = [(r, ls) for k in (1, 2) for r in [None] + REPRS + ["usize", "isize"] for ls in itertools.product(LITS, repeat=k)]
    few = [l for l in LITS if l[0] in ("", "0", "1", "-1", "-0", "0u8", "-128i8", "1 + 1", "0xff") or l[2] is None and l[1] in {v + d for lo, hi in LIM.values() for v, d in ((lo, 0), (lo, -1), (hi, 0), (hi, 1))}]
    cases += [(r, ls) for r in n3 for ls in itertools.product(ck.pick(few, LITS), repeat=3)]
    good = []
    for lo in range(0, len(cases), 100000):
        part = cases[lo:lo + 100000]
        for (r, ls), res in zip(part, g.batch([W % enum_text("E", r, ls) for r, ls in part], quiet=True)):
            want = enum_oracle(r, ls)
            ck.count("evaluations")
            text = enum_text("E", r, ls)
            if res.st > 1 or res.ok != (want is not None):
                ck.violation("%s: %s, expected it %s" % (text, gk.STATUS[res.st] + " " + res.err[:200].replace("\n", " "), "accepted" if want else "rejected"), text + "\n" + res.err, key=text)
            elif want:
                good.append((r, ls) + want)
    ck.count("enums_accepted", len(good))
    ck.log("%d enums generated" % len(cases))
    # what both compilers make of the accepted ones: all of one and two variants, and of
    # three one of each (values, repr) class
    seen, keep = set(), []
    for e in good:
        k = (e[0], e[2], tuple(e[3]), tuple(l[0] == "" for l in e[1]))
        if len(e[1]) < 3 or k not in seen:
            seen.add(k)
            keep.append(e)
    ck.count("enums_compiled", len(keep))
    groups = [keep[i:i + 1500] for i in range(0, len(keep), 1500)]

    def one(a):
        k, gr = a
        src = W % "\n".join("#[derive(Debug, Hash)] " + enum_text("E%d" % i, e[0], e[1]) for i, e in enumerate(gr))
        cc, rs = [], []
        for i, (r, ls, rep, vals) in enumerate(gr):
            cc.append("static_assert(std::is_same<std::underlying_type<E%d>::type, %s>::value, \"\");" % (i, CPP[rep]))
            rs.append("const _: () = { assert!(std::mem::size_of::<ffi::E%d>() == std::mem::size_of::<%s>()); assert!(std::mem::align_of::<ffi::E%d>() == std::mem::align_of::<%s>());" % (i, rep, i, rep))
            for j, v in enumerate(vals):
                cc.append("static_assert(static_cast<i128>(static_cast<%s>(E%d::V%d)) == %s, \"\");" % (CPP[rep], i, j, i128(v)))
                rs.append(" let r: %s = ffi::E%d::V%d.repr; assert!(r as i128 == %d);" % (rep, i, j, v))
            rs.append("};\n")
        compile_both(ck, g, "e%d" % k, src, "\n".join(cc), "".join(rs), [enum_text("E%d" % i, e[0], e[1]) for i, e in enumerate(gr)])
    with vk.pool() as p:
        list(p.map(one, enumerate(groups)))


def i128(v):
    """A C++ expression of this value that needs no literal beyond 32 bits."""
    a = abs(v)
    e = "((static_cast<i128>(%d) << 32) + %dLL)" % (a >> 32, a & 0xffffffff)
    return "-" + e if v < 0 else e


def compile_both(ck, g, tag, src, cc, rs, names, pre_h="", pre_rs="", compilers=("g++", "clang++")):
    """Generator, both C++ compilers and rustc on one bridge, with assertions in both languages."""
    r = g.batch([src])[0]
    if not r.ok:
        ck.violation("accepted one by one but not together: " + r.err[:300], src + "\n" + r.err)
        return
    d = os.path.join(ck.work, tag)
    gk.write(os.path.join(d, "pre.h"), "#pragma once\n#include <cstdint>\n" + pre_h)
    gk.write(os.path.join(d, "b.h"), r.header)
    f = gk.write(os.path.join(d, "a.cc"), '#include "b.h"\n#include <type_traits>\n#include <cstddef>\n__extension__ typedef __int128 i128;\n' + cc)
    body = gk.write(os.path.join(d, "b.cc"), r.cc)
    for comp in compilers:
        for path in (f, body):
            rc, errs, se = g.cxx(path, ("-fsyntax-only", "-Wno-invalid-offsetof", "-pedantic-errors", "-Werror=narrowing", "-Wno-error=long-long") + (("-Wno-dollar-in-identifier-extension",) if comp == "clang++" else ()), cc=comp, std="gnu++17")
            if rc:
                report(ck, comp, errs, se, path, src, names)
    p = gk.write(os.path.join(d, "b.rs"), "#![allow(warnings)]\n" + pre_rs + src + "\n" + rs)
    rc, errs, se = g.rustc(p, p + ".rmeta", ["--crate-type", "lib", "--emit", "metadata", "--crate-name", tag])
    if rc:
        lines = open(p).read().split("\n")
        for ls, m in errs[:5] or [([], se[-300:])]:
            at = lines[ls[0] - 1][:160] if ls else ""
            ck.violation("rustc: %s at: %s" % (m[:300], at), src + "\n" + rs, key="rustc:" + at)


def report(ck, comp, errs, se, path, src, names):
    for e in errs[:5] or [("", "0", se[-300:])]:
        try:
            at = open(e[0]).read().split("\n")[int(e[1]) - 1].strip()
        except (OSError, IndexError):
            at = ""
        ck.violation("%s: %s at: %s" % (comp, e[2][:300], at[:200]), src + "\n" + open(path).read() + "\n" + se[:4000], key="%s:%s" % (comp, at))


# ---- declaration order -----------------------------------------------------
VALUE = ["T", "[T; 2]", "[[T; 1]; 2]"]
# what may refer to a type that is declared later, or to the type itself
LOOSE = ["Box<T>", "Vec<T>", "UniquePtr<T>", "SharedPtr<T>", "WeakPtr<T>", "UniquePtr<CxxVector<T>>", "&'a T", "&'a mut T", "*const T", "*mut T", "&'a [T]", "&'a mut [T]", "Pin<&'a mut T>", "[*const T; 2]"]


def bridge_of(n, kinds, tag=""):
    """kinds[i][j]: how struct i mentions struct j, or None."""
    out = []
    # a struct has a lifetime if a field has one or it mentions a struct that has one; to keep
    # this simple every mention carries its own and value fields never nest lifetimes
    for i in range(n):
        life = any(k and "'a" in k for k in kinds[i])
        fs = ["f%d: %s" % (j, kinds[i][j].replace("T", "S%s_%d" % (tag, j))) for j in range(n) if kinds[i][j]]
        out.append("struct S%s_%d%s { %s }" % (tag, i, "<'a>" if life else "", ", ".join(["x: u8"] + fs)))
    return out


def acyclic(n, kinds):
    done, left = set(), set(range(n))
    while left:
        free = [i for i in left if all(not kinds[i][j] or kinds[i][j] not in VALUE or j in done for j in range(n))]
        if not free:
            return False
        done.update(free)
        left.difference_update(free)
    return True


def orders(ck, g):
    cases = []

    def add(n, alphabet, loops=True):
        cells = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
        for ks in itertools.product(alphabet, repeat=len(cells)):
            m = [[None] * n for _ in range(n)]
            for (i, j), k in zip(cells, ks):
                m[i][j] = k
            cases.append((n, m))
    add(1, [None] + VALUE + LOOSE)
    add(3, [None] + VALUE[:2])
    add(4, [None, "T"], loops=not ck.quick)
    if not ck.quick:
        add(4, [None, "T", "[T; 2]"], loops=False)
        add(2, [None] + VALUE + LOOSE)
    else:
        for v in [None] + VALUE + LOOSE:
            for w in [None] + VALUE + LOOSE:
                cases.append((2, [[None, v], [w, None]]))
    # all permutations of chains and diamonds of five
    for perm in itertools.permutations(range(5)):
        for shape in ([(0, 1), (1, 2), (2, 3), (3, 4)], [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)], [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)]):
            m = [[None] * 5 for _ in range(5)]
            for a, b in shape:
                m[perm[a]][perm[b]] = VALUE[(a + b) % 2]
            cases.append((5, m))
    ok = []
    for lo in range(0, len(cases), 100000):
        part = cases[lo:lo + 100000]
        for (n, m), r in zip(part, g.batch([W % "\n".join(bridge_of(n, m)) for n, m in part], quiet=True)):
            want = acyclic(n, m)
            ck.count("evaluations")
            if r.st > 1 or r.ok != want:
                t = " ".join(bridge_of(n, m))
                ck.violation("%s: %s, expected it %s" % (t, gk.STATUS[r.st] + " " + r.err[:200].replace("\n", " "), "accepted" if want else "rejected"), t + "\n" + r.err, key=t)
            elif want:
                ok.append((n, m))
    ck.count("orders_accepted", len(ok))
    # lifetimes do not propagate in bridge_of: a mention of a struct that has one is left elided, which rustc does not allow
    lt = lambda m, i: any(k and "'a" in k for k in m[i])
    comp = [(n, m) for n, m in ok if not any(m[i][j] and lt(m, j) for i in range(n) for j in range(n))]
    ck.count("orders_compiled", len(comp))
    per = 60
    groups = [comp[i:i + per] for i in range(0, len(comp), per)]

    def one(a):
        k, gr = a
        # the structs of all graphs of a group, interleaved
        cols = [bridge_of(n, m, str(q)) for q, (n, m) in enumerate(gr)]
        flat = [c[i] for i in range(5) for c in cols if i < len(c)]
        use = "".join("S%d_%d v%d_%d; " % (q, i, q, i) for q, (n, m) in enumerate(gr) for i in range(n) if not any(x and "&" in x for x in m[i]) and False)
        compile_both(ck, g, "o%d" % k, W % "\n".join(flat), use, "", [], compilers=("g++",) if ck.quick else ("g++", "clang++"))
    with vk.pool() as p:
        list(p.map(one, enumerate(groups)))


# ---- layout ----------------------------------------------------------------
PRE_H = "#include <array>\nstruct alignas(16) A16 { char c; };\nstruct alignas(64) A64 { char c; };\nstruct A1 { char c[3]; };\n"
PRE_RS = '''#[repr(C, align(16))] pub struct A16 { c: u8 }
#[repr(C, align(64))] pub struct A64 { c: u8 }
#[repr(C)] pub struct A1 { c: [u8; 3] }
pub struct Ro(u8);
unsafe impl cxx::ExternType for A16 { type Id = cxx::type_id!("A16"); type Kind = cxx::kind::Trivial; }
unsafe impl cxx::ExternType for A64 { type Id = cxx::type_id!("A64"); type Kind = cxx::kind::Trivial; }
unsafe impl cxx::ExternType for A1 { type Id = cxx::type_id!("A1"); type Kind = cxx::kind::Trivial; }
'''
FIXED = '''unsafe extern "C++" { include!("pre.h"); type A16 = crate::A16; type A64 = crate::A64; type A1 = crate::A1; }
extern "Rust" { type Ro; }
enum E8 { A } #[repr(u16)] enum E16 { A } #[repr(i64)] enum E64 { A }
struct N1 { a: u8 } struct N2 { a: u8, b: u16 } struct N3 { a: u64, b: u8 } struct N4 { a: [u8; 5] }
struct N5 { a: N2, b: u8, c: N3 } struct NA { a: A16, b: u8 }
'''
FIELDS = ["u8", "u16", "u32", "u64", "f64", "[u8; 3]", "[u16; 3]", "String", "&'a str", "Box<Ro>", "Vec<u8>", "N1", "N2", "N3", "N5", "E8", "E16", "E64", "A1", "A16", "UniquePtr<CxxString>", "SharedPtr<CxxString>"]
MORE = ["bool", "i8", "i16", "i32", "i64", "f32", "usize", "isize", "c_char", "WeakPtr<CxxString>", "&'a [u8]", "&'a mut [u16]", "&'a u8", "Pin<&'a mut A1>", "*const u8", "*mut Ro", "N4", "NA", "A64", "[N2; 2]", "[A16; 1]", "[String; 2]", "[[u8; 3]; 3]", "Vec<String>", "Box<N3>",
        "UniquePtr<CxxVector<u8>>", "[E16; 3]"]
SMALL = ["u8", "u16", "u32", "u64", "[u8; 3]", "N2", "A16", "String"]


def layouts(ck, g):
    every = FIELDS + MORE
    structs = [(a,) for a in every] + list(itertools.product(every, every)) + list(itertools.product(ck.pick(["u8"], FIELDS), FIELDS, FIELDS))
    structs += list(itertools.product(SMALL, repeat=4))
    if not ck.quick:
        structs += list(itertools.product(SMALL[:6], repeat=5))
    structs = list(dict.fromkeys(structs))
    ck.count("layouts", len(structs))
    ck.count("evaluations", len(structs))
    per = max(50, (len(structs) + 31) // 32)
    groups = [structs[i:i + per] for i in range(0, len(structs), per)]

    def one(a):
        k, gr = a
        life = [any("'a" in f for f in s) for s in gr]
        decl = "\n".join("struct S%d%s { %s }" % (i, "<'a>" if life[i] else "", ", ".join("f%d: %s" % (j, f) for j, f in enumerate(s))) for i, s in enumerate(gr))
        src = W % (FIXED + decl)
        r = g.batch([src])[0]
        if not r.ok:
            ck.violation("structs rejected: " + r.err[:300], src)
            return
        d = os.path.join(ck.work, "l%d" % k)
        gk.write(os.path.join(d, "pre.h"), "#pragma once\n" + PRE_H)
        gk.write(os.path.join(d, "b.h"), r.header)
        rows = ["&[" + ", ".join(["std::mem::size_of::<ffi::S%d>()" % i, "std::mem::align_of::<ffi::S%d>()" % i] + ["std::mem::offset_of!(ffi::S%d, f%d)" % (i, j) for j in range(len(s))]) + "]" for i, s in enumerate(gr)]
        p = gk.write(os.path.join(d, "b.rs"), "#![allow(warnings)]\n" + PRE_RS + src.replace("mod ffi", "pub mod ffi") + "\npub static T: &[&[usize]] = &[\n%s];\nfn main() { for r in T { for v in *r { print!(\"{v} \"); } println!(); } }\n" % ",\n".join(rows))
        rc, errs, se = g.rustc(p, p + ".exe", ["--crate-type", "bin", "--crate-name", "l%d" % k, "-C", "linker=g++", "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"])
        if rc:
            for ls, m in errs[:5] or [([], se[-400:])]:
                ck.violation("rustc: " + m[:300], src)
            return
        rc, so, se = vk.run([p + ".exe"])
        rust = [[int(x) for x in l.split()] for l in so.splitlines()]
        if rc or len(rust) != len(gr):
            ck.violation("the program printing the Rust layouts fails: %d %s" % (rc, se[:300]), src)
            return
        cc = ['#include "b.h"\n#include <cstddef>']
        at = {}
        for i, (s, v) in enumerate(zip(gr, rust)):
            for what, val in [("sizeof(S%d)" % i, v[0]), ("alignof(S%d)" % i, v[1])] + [("offsetof(S%d, f%d)" % (i, j), v[2 + j]) for j in range(len(s))]:
                cc.append('static_assert(%s == %d, "");' % (what, val))
                at[len(cc) + 1] = (i, what, val)
        f = gk.write(os.path.join(d, "a.cc"), "\n".join(cc))
        for comp in ("g++", "clang++"):
            rc, errs, se = g.cxx(f, ("-fsyntax-only", "-Wno-invalid-offsetof", "-ferror-limit=5" if comp == "clang++" else "-fmax-errors=5"), cc=comp)
            if rc:
                for e in errs[:3] or [("", "0", se[-300:])]:
                    i, what, val = at.get(int(e[1]), (None, e[2], ""))
                    ck.violation("struct { %s }: %s is %s in Rust; %s: %s" % ("; ".join(gr[i]) if i is not None else "?", what, val, comp, e[2][:200]), src, key="%s" % (gr[i],) if i is not None else None)
    with vk.pool() as p:
        list(p.map(one, enumerate(groups)))


def run(ck):
    g = gk.Gen(ck)
    enums(ck, g)
    ck.log("enums")
    orders(ck, g)
    ck.log("orders")
    layouts(ck, g)
    ck.cov["distinct_nontrivial"] = ck.cov["enums_compiled"] + ck.cov["orders_compiled"] + ck.cov["layouts"]
    ck.cov["rule"] = ("every enum of up to 3 variants over %d discriminants and every repr; every graph of up to 4 structs mentioning each other; every struct of up to 4 fields over the stated types. "
                      "Non-trivial: accepted and checked in both compilers" % len(LITS))
    ck.cov["samples"] = [enum_text("E", r, ls) + " -> " + str(enum_oracle(r, ls)) for r, ls in [(None, (LITS[0],)), ("i8", (LITS[5], LITS[0])), (None, (LITS[7], LITS[0], LITS[20]))]] + [
        " ".join(bridge_of(3, [[None, "T", None], [None, None, "[T; 2]"], [None, None, None]])), "struct { u8; A16; String }"]
    ck.assumptions += ["x86-64 layout", "rustc's and the C++ compilers' own layout of the emitted declarations is what programs get"]
