"""C15: derived traits mean the same in Rust and in C++."""
import itertools, os, re
import gk, vk
LEVEL = "exploration"

TRAITS = ["Clone", "Copy", "Debug", "Default", "Eq", "Hash", "Ord", "PartialEq", "PartialOrd"]
NEEDS = {"Copy": ["Clone"], "Eq": ["PartialEq"], "PartialOrd": ["PartialEq"], "Ord": ["Eq", "PartialOrd"]}
ALL = frozenset(TRAITS)
NOCOPY = ALL - {"Copy"}
FLOAT = ALL - {"Eq", "Ord", "Hash"}

# field types: how the field is written, the values, and the traits the type has
KINDS = {
    "u8": (["0", "1", "255"], ALL), "i16": (["-1", "0", "300"], ALL), "bool": (["false", "true"], ALL), "usize": (["0", "usize::MAX"], ALL), "c_char": (["-1", "0", "5"], ALL),
    "f32": (["0.0", "-0.0", "1.5", "f32::NAN", "f32::INFINITY"], FLOAT), "f64": (["0.0", "-0.0", "-1.0", "f64::NAN"], FLOAT),
    "String": (['"".to_owned()', '"a".to_owned()', '"b".to_owned()', '"a\\0".to_owned()'], NOCOPY), "&'a str": (['""', '"a"', '"ab"'], ALL),
    "Vec<u8>": (["vec![]", "vec![0]", "vec![1]", "vec![0, 0]"], NOCOPY), "Vec<f64>": (["vec![]", "vec![0.0]", "vec![f64::NAN]", "vec![0.0, 1.0]"], NOCOPY - {"Eq", "Ord", "Hash"}),
    "Vec<String>": (["vec![]", 'vec!["".to_owned()]', 'vec!["x".to_owned(), "y".to_owned()]'], NOCOPY),
    "[u8; 2]": (["[0, 0]", "[0, 1]", "[1, 0]"], ALL), "[f32; 2]": (["[0.0, 0.0]", "[f32::NAN, 0.0]", "[0.0, f32::NAN]", "[1.0, 0.0]"], FLOAT), "[String; 2]": (['["".to_owned(), "q".to_owned()]', '["q".to_owned(), "".to_owned()]'], NOCOPY),
    "&'a [u8]": (["&[]", "&[7]", "&[7, 8]"], ALL), "&'a u8": (["&1", "&2"], ALL - {"Default"}), "&'a mut u8": (["leak(1)", "leak(2)"], ALL - {"Default", "Clone", "Copy"}),
    "*const u8": (["at(0)", "at(1)"], ALL - {"Default"}),
    "E": (["ffi::E::B", "ffi::E::A", "ffi::E { repr: 9 }"], ALL - {"Default"}),
    "N": (["ffi::N { a: 0.0, b: 1 }", "ffi::N { a: f32::NAN, b: 1 }", "ffi::N { a: 0.0, b: 2 }", "ffi::N { a: 1.0, b: 0 }"], FLOAT), "M": (["ffi::M { a: 0, s: \"z\".to_owned() }", "ffi::M { a: 1, s: \"\".to_owned() }", "ffi::M { a: 0, s: \"\".to_owned() }"], NOCOPY),
    "Ro": None,
    "Box<Ro>": (["ro(5)", "ro(15)", "ro(6)"], NOCOPY), "Vec<Ro>": (["vec![]", "vec![*ro(1)]", "vec![*ro(11)]", "vec![*ro(2)]"], NOCOPY),
    "SharedPtr<CxxString>": (["SharedPtr::null()", 'sp("a")', 'sp("b")'], NOCOPY - {"Default"}), "UniquePtr<CxxString>": (["UniquePtr::null()", 'up("a")', 'up("a\\0")'], NOCOPY - {"Clone", "Default"}),
    "WeakPtr<CxxString>": (["WeakPtr::null()"], frozenset(["Clone", "Debug"])),
    "A": (["crate::A(3)", "crate::A(13)", "crate::A(4)"], ALL),
}
del KINDS["Ro"]
COMMON = '''
use cxx::{CxxString, SharedPtr, UniquePtr, WeakPtr};
#[derive(Clone, Debug, Default)] pub struct Ro(pub u8);
// comparisons unlike the derived ones: modulo 10, reversed
impl PartialEq for Ro { fn eq(&self, o: &Ro) -> bool { self.0 % 10 == o.0 % 10 } }
impl Eq for Ro {}
impl PartialOrd for Ro { fn partial_cmp(&self, o: &Ro) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Ro { fn cmp(&self, o: &Ro) -> std::cmp::Ordering { (o.0 % 10).cmp(&(self.0 % 10)) } }
impl std::hash::Hash for Ro { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u8(self.0 % 10) } }
#[derive(Clone, Copy, Debug, Default)] #[repr(C)] pub struct A(pub u8);
impl PartialEq for A { fn eq(&self, o: &A) -> bool { self.0 % 10 == o.0 % 10 } fn ne(&self, o: &A) -> bool { self.0 % 10 != o.0 % 10 } }
impl Eq for A {}
impl PartialOrd for A { fn partial_cmp(&self, o: &A) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for A { fn cmp(&self, o: &A) -> std::cmp::Ordering { (o.0 % 10).cmp(&(self.0 % 10)) } }
impl std::hash::Hash for A { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u8(self.0 % 10) } }
unsafe impl cxx::ExternType for A { type Id = cxx::type_id!("A"); type Kind = cxx::kind::Trivial; }
'''
MAIN = '''
use std::any::Any; use std::cmp::Ordering; use std::collections::hash_map::DefaultHasher; use std::fmt::Debug; use std::hash::{Hash, Hasher}; use std::marker::PhantomData;
fn ro(n: u8) -> Box<Ro> { Box::new(Ro(n)) }
fn leak(n: u8) -> &'static mut u8 { Box::leak(Box::new(n)) }
static AT: [u8; 2] = [0; 2];
fn at(i: usize) -> *const u8 { &AT[i] }
fn up(s: &str) -> UniquePtr<CxxString> { cxx::let_cxx_string!(t = s); cup(&t) }
fn cup(s: &CxxString) -> UniquePtr<CxxString> { ffi::dup(s) }
fn sp(s: &str) -> SharedPtr<CxxString> { cxx::let_cxx_string!(t = s); ffi::dups(&t) }
pub struct P<T: ?Sized>(PhantomData<T>);
macro_rules! has { ($($n:ident: $($b:path),+;)*) => { pub trait No { $(const $n: bool = false;)* } impl<T: ?Sized> No for P<T> {} $(impl<T $(: $b)+> P<T> { pub const $n: bool = true; })* } }
has! { CLONE: Clone; COPY: Copy; DEBUG: Debug; DEFAULT: Default; EQ: Eq; HASH: Hash; ORD: Ord; PARTIALEQ: PartialEq; PARTIALORD: PartialOrd; }
#[derive(Default)] struct Rec(Vec<u8>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.push(b.len() as u8); self.0.extend_from_slice(b) } }
fn stream<T: Hash>(t: &T) -> Vec<u8> { let mut r = Rec::default(); t.hash(&mut r); r.0 }
type Cmp<T> = unsafe extern "C" fn(*const T, *const T) -> u32;
type Hsh<T> = unsafe extern "C" fn(*const T) -> usize;
static mut PAIRS: u64 = 0;
macro_rules! bad { ($($t:tt)*) => { println!("BAD {}", format!($($t)*).replace('\\n', " ")) } }
macro_rules! same { ($a:expr, $b:expr, $($t:tt)*) => { { let (a, b) = ($a, $b); if a != b { bad!("{}: {:?}, expected {:?}", format!($($t)*), a, b); } } } }
// two bits for each C++ operator: exists, result
fn bit(c: u32, k: u32) -> Option<bool> { if c >> (2 * k) & 1 == 1 { Some(c >> (2 * k + 1) & 1 == 1) } else { None } }
const OPS: [&str; 6] = ["==", "!=", "<", "<=", ">", ">="];
fn exists<T>(n: &str, a: &T, c: Cmp<T>, want: [bool; 7]) {
    let m = unsafe { c(a, a) };
    for k in 0..6 { same!(bit(m, k as u32).is_some(), want[k], "{n}: C++ operator{} exists", OPS[k]); }
    same!(m >> 12 & 1 == 1, want[6], "{n}: std::hash exists");
}
fn eqs<T: PartialEq, U: PartialEq>(n: &str, a: &[T], t: &[U], c: Cmp<T>) {
    for i in 0..a.len() { for j in 0..a.len() {
        let (e, x) = (t[i] == t[j], t[i] != t[j]);
        unsafe { PAIRS += 1; }
        same!(a[i] == a[j], e, "{n}: Rust == of values {i}, {j}"); same!(a[i] != a[j], x, "{n}: Rust != of values {i}, {j}");
        let m = unsafe { c(&a[i], &a[j]) };
        same!(bit(m, 0), Some(e), "{n}: C++ == of values {i}, {j}"); same!(bit(m, 1), Some(x), "{n}: C++ != of values {i}, {j}");
    } }
}
fn ords<T: PartialOrd, U: PartialOrd>(n: &str, a: &[T], t: &[U], c: Cmp<T>) {
    for i in 0..a.len() { for j in 0..a.len() {
        let w = [t[i] < t[j], t[i] <= t[j], t[i] > t[j], t[i] >= t[j]];
        same!(a[i].partial_cmp(&a[j]), t[i].partial_cmp(&t[j]), "{n}: Rust partial_cmp of values {i}, {j}");
        same!([a[i] < a[j], a[i] <= a[j], a[i] > a[j], a[i] >= a[j]], w, "{n}: Rust < <= > >= of values {i}, {j}");
        let m = unsafe { c(&a[i], &a[j]) };
        same!([bit(m, 2), bit(m, 3), bit(m, 4), bit(m, 5)], w.map(Some), "{n}: C++ < <= > >= of values {i}, {j}");
    } }
}
fn ord<T: Ord, U: Ord>(n: &str, a: &[T], t: &[U]) {
    for i in 0..a.len() { for j in 0..a.len() { same!(a[i].cmp(&a[j]), t[i].cmp(&t[j]), "{n}: Rust cmp of values {i}, {j}"); } }
}
fn hashes<T: Hash, U: Hash>(n: &str, a: &[T], t: &[U], h: Hsh<T>) {
    let hs: Vec<usize> = a.iter().map(|x| unsafe { h(x) }).collect();
    for i in 0..a.len() {
        same!(stream(&a[i]), stream(&t[i]), "{n}: what value {i} feeds to a Rust hasher");
        same!(unsafe { h(&a[i]) }, hs[i], "{n}: std::hash of value {i} the second time");
        for j in 0..a.len() { same!(hs[i] == hs[j], stream(&t[i]) == stream(&t[j]), "{n}: std::hash of values {i} and {j} agree"); }
    }
}
fn dbgs<T: Debug, U: Debug>(n: &str, a: &[T], t: &[U]) {
    for i in 0..a.len() { same!(format!("{:?}", a[i]), format!("{:?}", t[i]), "{n}: Debug of value {i}"); same!(format!("{:#?}", a[i]), format!("{:#?}", t[i]), "{n}: alternate Debug of value {i}"); }
}
fn clones<T: Clone>(n: &str, a: &[T], show: fn(&T) -> String) {
    for i in 0..a.len() { same!(show(&a[i].clone()), show(&a[i]), "{n}: clone of value {i}"); let mut c = a[(i + 1) % a.len()].clone(); c.clone_from(&a[i]); same!(show(&c), show(&a[i]), "{n}: clone_from of value {i}"); }
}
'''
CPP = '''
#include <functional>
#include <type_traits>
#include <unordered_set>
template <class...> struct voider { using type = void; };
#define OP(NAME, OPER) \\
  template <class T, class = void> struct NAME { static std::uint32_t go(const T &, const T &) { return 0; } }; \\
  template <class T> struct NAME<T, typename voider<decltype(std::declval<const T &>() OPER std::declval<const T &>())>::type> { \\
    static_assert(std::is_same<decltype(std::declval<const T &>() OPER std::declval<const T &>()), bool>::value, "not bool"); \\
    static std::uint32_t go(const T &a, const T &b) { return (a OPER b) ? 3 : 1; } };
OP(Eq, ==) OP(Ne, !=) OP(Lt, <) OP(Le, <=) OP(Gt, >) OP(Ge, >=)
template <class T, class = void> struct Hs { static constexpr bool yes = false; static std::size_t go(const T &) { return 0; } };
template <class T> struct Hs<T, typename std::enable_if<std::is_default_constructible<std::hash<T>>::value>::type> {
  static constexpr bool yes = true; static std::size_t go(const T &a) { return std::hash<T>()(a); } };
template <class T> std::uint32_t ops(const T &a, const T &b) {
  return Eq<T>::go(a, b) | Ne<T>::go(a, b) << 2 | Lt<T>::go(a, b) << 4 | Le<T>::go(a, b) << 6 | Gt<T>::go(a, b) << 8 | Ge<T>::go(a, b) << 10 | (Hs<T>::yes ? 1u << 12 : 0u);
}
'''
PRE_H = "#pragma once\n#include <cstdint>\n#include <memory>\n#include <string>\nstruct A { std::uint8_t v; };\ninline std::unique_ptr<std::string> dup(const std::string &s) { return std::unique_ptr<std::string>(new std::string(s)); }\ninline std::shared_ptr<std::string> dups(const std::string &s) { return std::make_shared<std::string>(s); }\n"
FIXED = '''extern "Rust" { type Ro; }
unsafe extern "C++" { include!("pre.h"); type A = crate::A; fn dup(s: &CxxString) -> UniquePtr<CxxString>; fn dups(s: &CxxString) -> SharedPtr<CxxString>; }
#[derive(Debug, Hash, PartialOrd, Ord)] enum E { A = 7, B = 2 }
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)] struct N { a: f32, b: u8 }
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)] struct M { a: u8, s: String }
impl Box<Ro> {} impl Vec<Ro> {}
'''
FNAMES = ["zz", "r#type", "aa"]


def closed(d):
    return all(n in d for t in d for n in NEEDS.get(t, ()))


SETS = [s for k in range(len(TRAITS) + 1) for s in itertools.combinations(TRAITS, k)]
CLOSED = [s for s in SETS if closed(s)]
CHAINS = [(), ("PartialEq",), ("PartialEq", "PartialOrd"), ("Eq", "PartialEq"), ("Eq", "PartialEq", "PartialOrd"), ("Eq", "Ord", "PartialEq", "PartialOrd")]


def allowed(fields):
    s = ALL
    for f in fields:
        s = s & KINDS[f][1]
    return s


class Case:
    def __init__(s, fields, derives, attr="", qual=None, cname=None, split=False):
        s.fields, s.derives, s.attr, s.qual, s.cname, s.split = fields, derives, attr, qual, cname, split
        s.life = any("'a" in f for f in fields)

    def decl(s, i, pub=""):
        d = s.derives
        if s.split and len(d) > 1:
            a = "#[derive(%s)] #[derive(%s)] " % (", ".join(d[1:]), d[0])
        else:
            a = "#[derive(%s)] " % ", ".join(d) if d else ""
        return "%s%sstruct S%d%s { %s }" % (a, pub, i, "<'a>" if s.life else "", ", ".join("%s%s: %s" % (pub, FNAMES[j], f) for j, f in enumerate(s.fields)))

    def text(s):
        return s.attr + s.decl(0)


def cases_of(ck):
    out = []

    def add(fields, derives, **kw):
        if set(derives) <= allowed(fields):
            out.append(Case(tuple(fields), tuple(derives), **kw))
    # every closed set of derives on one field, in two orders and split in two attributes
    for d in CLOSED:
        add(["u8"], d)
        add(["u8"], tuple(reversed(d)), split=True)
    # every type alone: every chain of comparison traits, with and without the others
    extra = lambda f: [t for t in ("Clone", "Copy", "Debug", "Default") if t in allowed(f)]
    for f in KINDS:
        for c in CHAINS:
            add([f], c)
            add([f], list(c) + ["Hash"] + extra([f]))
            if not set(c) <= allowed([f]) or "Hash" not in allowed([f]):
                add([f], list(c) + extra([f]))
    pairs = ck.pick(["u8", "f32", "String", "&'a str", "Vec<f64>", "[f32; 2]", "E", "N", "M", "Box<Ro>", "SharedPtr<CxxString>", "A"], list(KINDS))
    for a in pairs:
        for b in pairs:
            al = allowed([a, b])
            for c in ck.pick([CHAINS[2], CHAINS[5]], CHAINS):
                if set(c) <= al:
                    add([a, b], list(c) + [t for t in ("Hash",) if t in al] + extra([a, b]))
    for fs in itertools.product(["u8", "f64", "String", "M"], repeat=3):
        al = allowed(fs)
        c = max((c for c in CHAINS if set(c) <= al), key=len)
        add(fs, list(c) + [t for t in ("Hash",) if t in al] + extra(fs))
    full = ["Hash", "PartialOrd", "Eq", "Clone", "PartialEq", "Ord", "Debug", "Default"]
    part = ["PartialEq", "PartialOrd", "Debug", "Hash"]
    for f in ("u8", "&'a str", "String"):
        for d in (full, part):
            add([f, "i16"], d, attr='#[namespace = "a::b"] ', qual="a::b::S%d")
            add([f, "i16"], d, attr='#[cxx_name = "Other%d"] ', qual="Other%d")
            add([f, "i16"], d, attr='#[namespace = "std_"] #[cxx_name = "std%d"] ', qual="std_::std%d")
    return out


def program(ck, g, k, cases):
    """Runs all cases of a group in one program."""
    decl, twin, cc, ext, body = [], [], ['#include "b.h"\n' + CPP], [], []
    for i, c in enumerate(cases):
        life = "<'a>" if c.life else ""
        decl.append((c.attr % i if "%d" in c.attr else c.attr) + c.decl(i))
        twin.append(c.decl(i, "pub "))
        q = "::" + ((c.qual % i) if c.qual else "S%d" % i)
        cc.append('extern "C" std::uint32_t c15_cmp_%d(const %s *a, const %s *b) { return ops(*a, *b); }' % (i, q, q))
        cc.append('extern "C" std::size_t c15_hash_%d(const %s *a) { return Hs<%s>::go(*a); }' % (i, q, q))
        if "Hash" in c.derives and "PartialEq" in c.derives:
            cc.append("std::unordered_set<%s> *u%d;" % (q, i))
        st = "<'static>" if c.life else ""
        ext.append("fn c15_cmp_%d(a: *const ffi::S%d%s, b: *const ffi::S%d%s) -> u32; fn c15_hash_%d(a: *const ffi::S%d%s) -> usize;" % (i, i, st, i, st, i, i, st))
        # all combinations of field values; the values of wide structs are thinned to two each
        dom = [KINDS[f][0] if len(c.fields) < 3 else KINDS[f][0][:3] for f in c.fields]
        if len(c.fields) == 2:
            dom = [d[:4] for d in dom]
        vals = ["$m::S%d { %s }" % (i, ", ".join("%s: %s" % (FNAMES[j], v) for j, v in enumerate(vs))) for vs in itertools.product(*dom)]
        body.append("#[inline(never)] fn t%d() { macro_rules! vals { ($m:ident) => { vec![%s] } } let a = vals!(ffi); let t = vals!(twin); let n = %s;" % (i, ", ".join(vals), rstr(c.text())))
        d = set(c.derives)
        for t in TRAITS:
            body.append("same!(P::<ffi::S%d%s>::%s, %s, \"{n}: {} in Rust\", %s);" % (i, st, t.upper(), "true" if t in d else "false", rstr(t)))
        pe, po, h = [str(x in d).lower() for x in ("PartialEq", "PartialOrd", "Hash")]
        body.append("exists(n, &a[0], c15_cmp_%d, [%s, %s, %s, %s, %s, %s, %s]);" % (i, pe, pe, po, po, po, po, h))
        if "PartialEq" in d:
            body.append("eqs(n, &a, &t, c15_cmp_%d);" % i)
        if "PartialOrd" in d:
            body.append("ords(n, &a, &t, c15_cmp_%d);" % i)
        if "Ord" in d:
            body.append("ord(n, &a, &t);")
        if "Hash" in d:
            body.append("hashes(n, &a, &t, c15_hash_%d);" % i)
        if "Debug" in d:
            body.append("dbgs(n, &a, &t);")
        show = "|s| [%s].join(\"|\")" % ", ".join('format!("{:?}", s.%s)' % FNAMES[j] for j in range(len(c.fields)))
        if "Clone" in d:
            body.append("clones(n, &a, %s);" % show)
        if "Default" in d:
            fs = ", ".join("x.%s" % FNAMES[j] for j in range(len(c.fields)))
            fm = "{:?}|" * len(c.fields)
            body.append('let x: ffi::S%d%s = Default::default(); let l = format!("%s", %s); let x: twin::S%d%s = Default::default(); same!(l, format!("%s", %s), "{n}: default");' % (i, st, fm, fs, i, st, fm, fs))
        body.append("}\n")
    src = "#[cxx::bridge]\npub mod ffi {\n%s\n}" % (FIXED + "\n".join(decl))
    rs = ("#![allow(warnings)]\n" + COMMON + MAIN + src + "\npub mod twin { use super::*; use super::ffi::{E, N, M}; type c_char = std::ffi::c_char;\n%s\n}\n" % "\n".join(twin) +
          'extern "C" { %s }\n' % "\n".join(ext) + "".join(body) + "fn main() { %s println!(\"DONE {}\", unsafe { PAIRS }); }\n" % " ".join("t%d();" % i for i in range(len(cases))))
    return link_run(ck, g, "s%d" % k, src, "\n".join(cc), rs)


def rstr(t):
    return '"%s"' % t.replace("\\", "\\\\").replace('"', '\\"')


def link_run(ck, g, tag, src, cc, rs):
    r = g.batch([src])[0]
    if not r.ok:
        ck.violation("rejected by the generator: " + r.err[:300], src + r.err)
        return 0
    d = os.path.join(ck.work, tag)
    gk.write(os.path.join(d, "pre.h"), PRE_H)
    gk.write(os.path.join(d, "b.h"), r.header)
    f1 = gk.write(os.path.join(d, "a.cc"), cc)
    f2 = gk.write(os.path.join(d, "b.cc"), r.cc)
    objs = []
    for f in (f1, f2):
        rc, errs, se = g.cxx(f, ("-c", "-O0", "-o", f + ".o"))
        if rc:
            at = ""
            try:
                at = open(errs[0][0]).read().split("\n")[int(errs[0][1]) - 1]
            except (IndexError, OSError):
                pass
            ck.violation("g++ rejects the generated operators or their use: %s at: %s" % ((errs or [("", "", se[-300:])])[0][2][:300], at[:200]), src + "\n" + se[:6000], key="g++:" + at[:120])
            return 0
        objs += ["-C", "link-arg=" + f + ".o"]
    p = gk.write(os.path.join(d, "m.rs"), rs)
    rc, errs, se = g.rustc(p, p + ".exe", ["--crate-type", "bin", "--crate-name", tag, "-C", "debuginfo=0"] + objs + ["-C", "link-arg=-lstdc++"])
    if rc:
        lines = rs.split("\n")
        for ls, m in errs[:5] or [([], se[-600:])]:
            at = lines[ls[0] - 1][:200] if ls else ""
            ck.violation("rustc: %s at: %s" % (m[:300], at), src + "\n" + m, key="rustc:" + at[:150])
        return 0
    rc, so, se = vk.run([p + ".exe"], timeout=120)
    done = 0
    for l in so.splitlines():
        if l.startswith("BAD "):
            ck.violation(l[4:500], src, key=l[4:500].replace(" ", "_"))
        elif l.startswith("DONE "):
            done = int(l[5:])
    if rc or not re.search(r"^DONE ", so, re.M):
        ck.violation("the program comparing the traits fails: exit %d %s" % (rc, se[-400:]), src)
    return done


# ---- which derives are accepted ----------------------------------------------
def acceptance(ck, g):
    fields = ck.pick(["u8", "f32", "String", "A", "WeakPtr<CxxString>"], [f for f in KINDS if "Ro" not in f])
    cases = [Case((f,), d) for f in fields for d in SETS]
    pre = COMMON + "use std::ffi::c_char;\n#[cxx::bridge]\nmod ffi {\n%s\n}\nuse ffi::{E, M, N};\n" % FIXED
    mods = ["#[cxx::bridge] mod ffi { %s\n%s }" % (c.decl(0), imports(c.fields[0])) for c in cases]
    # the same struct with the standard derives is the oracle
    twins = ["%s" % c.decl(0) for c in cases]
    got = g.verdicts(mods, pre, "a", per=150)
    want = g.verdicts(twins, pre, "t", per=400)
    for c, a, b in zip(cases, got, want):
        ck.count("evaluations")
        ck.count("accepted" if not b else "rejected")
        if bool(a) != bool(b):
            ck.violation("%s: %s in a bridge, %s outside one" % (c.text(), "rejected (%s)" % a[0][:200] if a else "accepted", "rejected (%s)" % b[0][:200] if b else "accepted"), c.text(), key=c.text().replace(" ", "_"))
        exp = closed(c.derives) and set(c.derives) <= allowed(c.fields)
        if bool(b) == exp:
            raise vk.Violation("the table of traits disagrees with rustc on %s: %s" % (c.text(), b[:2]), "")


def imports(f):
    if f == "A":
        return 'unsafe extern "C++" { include!("pre.h"); type A = crate::A; }'
    if f in ("N", "M", "E"):
        return 'unsafe extern "C++" { include!("pre.h"); type %s = crate::ffi::%s; }' % (f, f)
    return ""


# ---- enums -------------------------------------------------------------------
REPRS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"]


def enum_cases(ck):
    out = []
    ed = ["Clone", "Copy", "Debug", "Eq", "Hash", "Ord", "PartialEq", "PartialOrd"]
    sets = [s for k in range(len(ed) + 1) for s in itertools.combinations(ed, k)]
    auto = {"Copy", "Clone", "Eq", "PartialEq"}
    for s in sets:
        if closed(set(s) | auto):
            out.append((None, [("A", 0), ("B", 1)], s))
    for r in REPRS:
        neg = r[0] == "i"
        bits = 64 if "size" in r else int(r[1:])
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if neg else (0, 2 ** bits - 1)
        for vs in ([("A", hi), ("B", lo)], [("r#match", 5), ("Zz", 3), ("B", hi)], [("A", lo)]):
            for s in (("Debug",), ("Debug", "Hash", "Ord", "PartialOrd"), ("PartialOrd",), ("Hash", "Debug", "Copy", "Clone", "Eq", "PartialEq")):
                out.append((r, vs, s))
    return out


def enums(ck, g, tag, cases):
    decl, twin, cc, ext, body = [], [], ['#include "b.h"\n' + CPP], [], []
    for i, (r, vs, d) in enumerate(cases):
        rep = r or "u8"
        dv = "#[derive(%s)] " % ", ".join(d) if d else ""
        lit = ", ".join("%s = %d" % v for v in vs)
        decl.append("%s%senum E%d { %s }" % (dv, "#[repr(%s)] " % r if r else "", i, lit))
        td = sorted(set(d) | {"Copy", "Clone", "Eq", "PartialEq"})
        twin.append("#[derive(%s)] #[repr(%s)] pub enum E%d { %s }" % (", ".join(td), rep, i, lit))
        cc.append('extern "C" std::uint32_t c15_cmp_%d(const E%d *a, const E%d *b) { return ops(*a, *b); }' % (i, i, i))
        cc.append('extern "C" std::size_t c15_hash_%d(const E%d *a) { return Hs<E%d>::go(*a); }' % (i, i, i))
        ext.append("fn c15_cmp_%d(a: *const ffi::E%d, b: *const ffi::E%d) -> u32; fn c15_hash_%d(a: *const ffi::E%d) -> usize;" % (i, i, i, i, i))
        body.append("#[inline(never)] fn t%d() { macro_rules! vals { ($m:ident) => { vec![%s] } } let a = vals!(ffi); let t = vals!(twin); let n = %s;" % (i, ", ".join("$m::E%d::%s" % (i, v) for v, _ in vs), rstr(decl[-1])))
        for t in TRAITS:
            body.append("same!(P::<ffi::E%d>::%s, %s, \"{n}: {} in Rust\", %s);" % (i, t.upper(), "true" if t in td else "false", rstr(t)))
        body.append("exists(n, &a[0], c15_cmp_%d, [true; 7]); eqs(n, &a, &t, c15_cmp_%d);" % (i, i))
        if "PartialOrd" in d:
            body.append("ords(n, &a, &t, c15_cmp_%d);" % i)
        if "Ord" in d:
            body.append("ord(n, &a, &t);")
        if "Debug" in d:
            body.append("dbgs(n, &a, &t);")
        body.append("clones(n, &a, |s| s.repr.to_string()); let w: [%s; %d] = [%s];" % (rep, len(vs), ", ".join(str(v) for _, v in vs)))
        body.append("for k in 0..a.len() { let h: Vec<usize> = a.iter().map(|x| unsafe { c15_hash_%d(x) }).collect(); same!(a[k].repr, w[k], \"{n}: value of variant {k}\"); for j in 0..a.len() { same!(h[k] == h[j], k == j, \"{n}: std::hash of {k} and {j} agree\"); } }" % i)
        # constants usable as patterns, and values without a name
        body.append("for k in 0..a.len() { let m = match a[k] { %s _ => 99 }; same!(m, k, \"{n}: pattern matched by {k}\"); }" % " ".join("ffi::E%d::%s => %d," % (i, v, j) for j, (v, _) in enumerate(vs)))
        un = [x for x in (0, 1, 77) if x not in [v for _, v in vs]]
        u = "[%s]" % ", ".join("ffi::E%d { repr: %d }" % (i, x) for x in un)
        body.append("let u = %s; for x in &u { let m = match *x { %s _ => 99 }; same!(m, 99, \"{n}: pattern matched by unnamed value\");" % (u, " ".join("ffi::E%d::%s => %d," % (i, v, j) for j, (v, _) in enumerate(vs))))
        if "PartialOrd" in d:
            body.append("for y in a.iter().chain(&u) { same!(x.partial_cmp(y), x.repr.partial_cmp(&y.repr), \"{n}: unnamed value partial_cmp\"); let m = unsafe { c15_cmp_%d(x, y) }; same!(bit(m, 2), Some(x < y), \"{n}: C++ < of an unnamed value\"); }" % i)
        body.append("for y in a.iter().chain(&u) { same!(x == y, x.repr == y.repr, \"{n}: unnamed value ==\"); same!(bit(unsafe { c15_cmp_%d(x, y) }, 0), Some(x == y), \"{n}: C++ == of an unnamed value\"); }" % i)
        if "Debug" in d:
            body.append("same!(format!(\"{:?}\", x), format!(\"E%d({})\", x.repr), \"{n}: Debug of an unnamed value\");" % i)
        body.append("} }\n")
    src = "#[cxx::bridge]\npub mod ffi {\n%s\n}" % (FIXED + "\n".join(decl))
    rs = ("#![allow(warnings)]\n" + COMMON + MAIN + src + "\npub mod twin {\n%s\n}\n" % "\n".join(twin) + 'extern "C" { %s }\n' % "\n".join(ext) + "".join(body) +
          "fn main() { %s println!(\"DONE {}\", unsafe { PAIRS }); }\n" % " ".join("t%d();" % i for i in range(len(cases))))
    n = link_run(ck, g, tag, src, "\n".join(cc), rs)
    ck.count("evaluations", len(cases))
    ck.count("pairs_compared", n)
    ck.count("enums", len(cases))


def run(ck):
    g = gk.Gen(ck)
    cases = cases_of(ck)
    ck.count("structs", len(cases))
    ck.count("evaluations", len(cases))
    per = 40
    groups = [cases[i::max(1, len(cases) // per)] for i in range(max(1, len(cases) // per))]
    with vk.pool() as p:
        ck.count("pairs_compared", sum(p.map(lambda a: program(ck, g, *a), enumerate(groups))))
    ck.log("structs")
    ec = enum_cases(ck)
    with vk.pool() as p:
        list(p.map(lambda k: enums(ck, g, "en%d" % k, ec[k::8]), range(8)))
    ck.log("enums")
    acceptance(ck, g)
    ck.cov["distinct_nontrivial"] = ck.cov["structs"] + ck.cov["enums"]
    ck.cov["rule"] = "every closed set of the derives x struct shapes x all pairs of values; every set of derives (closed or not) x field types for acceptance. Non-trivial: a struct or enum whose operators were run on all pairs of its values in both languages"
    ck.cov["samples"] = [c.text() for c in cases[::max(1, len(cases) // 6)]][:6]
    ck.assumptions += ["rustc's own derives on an identical struct outside the bridge are the oracle", "std::hash gives different results for different values of these small sets (64-bit hash)"]
