#!/usr/bin/env python3
"""Generates the signature harness of C09 (src/c09{a,b,c}.rs, cc/c09{a,b,c}.{hpp,cc}).
Every type of the table is passed through every position a bridge allows."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
RECV = ["&CObj", "Pin<&mut CObj>", "&S3", "&mut S3"]
RRECV = ["&RObj", "&mut RObj", "&S3", "&mut S3"]


class T:
    def __init__(s, n, r, c, rmk, rck, cmk, cck, deps=(), **kw):
        s.n, s.r, s.c, s.rmk, s.rck, s.cmk, s.cck = n, r, c, rmk, rck, cmk, cck
        s.deps = list(deps)
        s.kind = "val"      # val | ref | mut
        s.rad = s.cad = "0"
        s.rset = s.cset = None
        s.cnew = None       # C++ expression allocating one
        s.decl = ""         # declaration inside the bridge
        s.cdecl = ""        # C++ declaration before the bridge
        s.lt = s.unsafe = False
        s.triv = True       # exists by value in Rust
        s.pod_c = True      # exists by value in C++
        s.item = None
        s.cret = None
        s.__dict__.update(kw)


def prim(n, c, rv, cv):
    return T(n, n, c, "[%s][k as usize]" % ", ".join(rv), "*v == mk_%s(k)" % n, "%s t[4] = {%s}; return t[k];" % (c, ", ".join(cv)), "v == mk_%s(k)" % n)


def ints(n, c, lo, hi):
    rv = ["0", "1", str(lo if lo else hi // 2 + 1), str(hi)]
    def cx(x):
        x = int(x)
        if x == -2**63: return "INT64_MIN"
        return str(x) + ("ull" if x > 2**63 - 1 else "ll" if abs(x) > 2**31 - 1 else "")
    return prim(n, c, rv, [cx(x) for x in rv])


def flt(n, c, bits, u):
    return T(n, n, c, "%s::from_bits([%s][k as usize])" % (n, ", ".join(bits)), "v.to_bits() == mk_%s(k).to_bits()" % n,
             "std::uint%d_t t[4] = {%s}; %s r; std::memcpy(&r, &t[k], sizeof r); return r;" % (u, ", ".join(bits), c),
             "[&]{ auto w = mk_%s(k); return std::memcmp(&v, &w, sizeof w) == 0; }()" % n)


u8 = ints("u8", "std::uint8_t", 0, 255); i8 = ints("i8", "std::int8_t", -128, 127)
u16 = ints("u16", "std::uint16_t", 0, 65535); i16 = ints("i16", "std::int16_t", -32768, 32767)
u32 = ints("u32", "std::uint32_t", 0, 2**32 - 1); i32 = ints("i32", "std::int32_t", -2**31, 2**31 - 1)
u64 = ints("u64", "std::uint64_t", 0, 2**64 - 1); i64 = ints("i64", "std::int64_t", -2**63, 2**63 - 1)
usize = ints("usize", "std::size_t", 0, 2**64 - 1); isize = ints("isize", "rust::isize", -2**63, 2**63 - 1)
bool_ = T("bool", "bool", "bool", "k & 1 == 1", "*v == (k & 1 == 1)", "return k & 1;", "v == bool(k & 1)")
char = T("c_char", "c_char", "char", "[0u8, b'a', 0x80, 0xff][k as usize] as c_char", "*v == mk_c_char(k)",
         "char t[4] = {'\\0', 'a', char(0x80), char(0xff)}; return t[k];", "v == mk_c_char(k)")
f32 = flt("f32", "float", ["0x80000000", "0x7f800000", "0x3fc00000", "0x7fc00001"], 32)
f64 = flt("f64", "double", ["0x8000000000000000", "0xfff0000000000000", "0x3ff8000000000000", "0x7ff8000000000123"], 64)
PRIMS = [bool_, u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, char, f32, f64]
STR = T("str", "&str", "rust::Str", "TXT[k as usize]", "*v == TXT[k as usize]", "return rust::Str(TXT[k].data(), TXT[k].size());",
        "std::string(v.data(), v.size()) == TXT[k]", anchor="ref", rad="if v.is_empty() { 0 } else { v.as_ptr() as usize }",
        cad="v.empty() ? 0 : std::uintptr_t(v.data())", triv=True)
STRING = T("String", "String", "rust::String", "TXT[k as usize].to_owned()", "v == TXT[k as usize]", "return rust::String(TXT[k]);", "std::string(v) == TXT[k]",
           rad="0")


def st(n, fields, lt=False):
    g = "<'a>" if lt else ""
    return T(n, n + g, n, "%s { %s }" % (n, ", ".join("f%d: mk_%s((k + %d) & 3)" % (i, f.n, i) for i, f in enumerate(fields))),
             " && ".join("ck_%s(&v.f%d, (k + %d) & 3)" % (f.n, i, i) for i, f in enumerate(fields)),
             "return %s{%s};" % (n, ", ".join("mk_%s((k + %d) & 3)" % (f.n, i) for i, f in enumerate(fields))),
             " && ".join("ck_%s(v.f%d, (k + %d) & 3)" % (f.n, i, i) for i, f in enumerate(fields)), deps=fields, lt=lt,
             decl="struct %s%s { %s }" % (n, g, ", ".join("f%d: %s" % (i, f.r.replace("&", "&'a ") if lt else f.r) for i, f in enumerate(fields))),
             cdecl="struct %s;" % n)


def arr(t, n):
    N = "arr%d_%s" % (n, t.n)
    return T(N, "[%s; %d]" % (t.r, n), "std::array<%s, %d>" % (t.c, n), "std::array::from_fn(|i| mk_%s((k + i as i32) & 3))" % t.n,
             "v.iter().enumerate().all(|(i, v)| ck_%s(v, (k + i as i32) & 3))" % t.n,
             "return %s{{%s}};" % ("std::array<%s, %d>" % (t.c, n), ", ".join("mk_%s((k + %d) & 3)" % (t.n, i) for i in range(n))),
             " && ".join("ck_%s(v[%d], (k + %d) & 3)" % (t.n, i, i) for i in range(n)), deps=[t])


def box(t):
    return T("Box_" + t.n, "Box<%s>" % t.r, "rust::Box<%s>" % t.c, "Box::new(mk_%s(k))" % t.n, "ck_%s(v, k)" % t.n,
             "return %s;" % (t.cbox if hasattr(t, "cbox") else "rust::Box<%s>(mk_%s(k))" % (t.c, t.n)), "ck_%s(*v, k)" % t.n, deps=[t],
             impl="Box<%s>" % t.r if t.item else "")


def vec(t):
    N = "Vec_" + t.n
    return T(N, "Vec<%s>" % t.r, "rust::Vec<%s>" % t.c, "(0..k).map(|i| mk_%s((k + i) & 3)).collect()" % t.n,
             "v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_%s(v, (k + i as i32) & 3))" % t.n,
             ("return r_make_%s(k);" % N) if not t.pod_c else "rust::Vec<%s> v; for (int i = 0; i < k; i++) v.push_back(mk_%s((k + i) & 3)); return v;" % (t.c, t.n),
             "v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_%s(v[i], (k + i) & 3)) return false; return true; }()" % t.n, deps=[t],
             impl="Vec<%s>" % t.r if t.item else "", needr=not t.pod_c)


def cvec(t):
    N = "CxxVector_" + t.n
    return T(N, "CxxVector<%s>" % t.r, "std::vector<%s>" % t.c, None,
             "v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_%s(v, (k + i as i32) & 3))" % t.n,
             "std::vector<%s> v; for (int i = 0; i < k; i++) v.push_back(mk_%s((k + i) & 3)); return v;" % (t.c, t.n),
             "v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_%s(v[i], (k + i) & 3)) return false; return true; }()" % t.n, deps=[t],
             triv=False, cset="x = mk_%s(k);" % N, rset="let mut x = x; while x.as_mut().pop().is_some() {} for i in 0..k { x.as_mut().push(mk_%s((k + i) & 3)); }" % t.n if t.triv else None, impl="CxxVector<%s>" % t.r if t.item else "")


def up(t):
    N = "UniquePtr_" + t.n
    return T(N, "UniquePtr<%s>" % t.r, "std::unique_ptr<%s>" % t.c,
             ("if k == 3 { UniquePtr::null() } else { UniquePtr::new(mk_%s(k)) }" % t.n) if t.triv else "ffi::c_make_%s(k)" % N,
             "match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_%s(v, k) }" % t.n,
             "return k == 3 ? nullptr : std::unique_ptr<%s>(%s);" % (t.c, t.cnew or "new %s(mk_%s(k))" % (t.c, t.n)),
             "k == 3 ? !v : v && ck_%s(*v, k)" % t.n, deps=[t], needc=not t.triv, impl="UniquePtr<%s>" % t.r if t.item else "")


def sp(t):
    N = "SharedPtr_" + t.n
    return T(N, "SharedPtr<%s>" % t.r, "std::shared_ptr<%s>" % t.c,
             ("if k == 3 { SharedPtr::null() } else { SharedPtr::new(mk_%s(k)) }" % t.n) if t.triv else "ffi::c_make_%s(k)" % N,
             "match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_%s(v, k) }" % t.n,
             "return k == 3 ? nullptr : std::shared_ptr<%s>(%s);" % (t.c, t.cnew or "new %s(mk_%s(k))" % (t.c, t.n)),
             "k == 3 ? !v : v && v.use_count() == 1 && ck_%s(*v, k)" % t.n, deps=[t], needc=not t.triv, impl="SharedPtr<%s>" % t.r if t.item else "")


def wp(t):
    N = "WeakPtr_" + t.n
    s = sp(t)
    return T(N, "WeakPtr<%s>" % t.r, "std::weak_ptr<%s>" % t.c,
             "{ static mut S: [Option<SharedPtr<%s>>; 4] = [None, None, None, None]; let s = mk_%s(k); let w = s.downgrade(); unsafe { (&mut *(&raw mut S))[k as usize] = Some(s); } w }" % (t.r, s.n),
             "match v.upgrade().as_ref() { None => k == 3, Some(v) => k != 3 && ck_%s(v, k) }" % t.n,
             "static std::shared_ptr<%s> s[4]; s[k] = mk_%s(k); return s[k];" % (t.c, s.n),
             "[&]{ auto s = v.lock(); return k == 3 ? !s : s && ck_%s(*s, k); }()" % t.n, deps=[s, t], impl="WeakPtr<%s>" % t.r if t.item else "SharedPtr<%s>" % t.r if t.decl else "")


def rf(t):
    n = "ref_" + t.n
    return T(n, "&" + t.r, "%s const &" % t.c, ("&*rs_%s(k)" if t.triv else "{ let _ = rs_%s(k); rp_@@(k) }".replace("@@", t.n)) % t.n, "ck_%s(*v, k)" % t.n, "return cs_%s(k);" % t.n, "ck_%s(v, k)" % t.n, deps=[t], kind="ref", anchor="ref",
             rad="*v as *const _ as *const u8 as usize", cad="std::uintptr_t(&v)", store=t, cv=True)


def mt(t):
    n = "mut_" + t.n
    pin = not t.triv
    x = T(n, "Pin<&mut %s>" % t.r if pin else "&mut " + t.r, "%s &" % t.c, "rs_%s(k)" % t.n, "ck_%s(&**v, k)" % t.n, "return cs_%s(k);" % t.n, "ck_%s(v, k)" % t.n, deps=[t], kind="mut", anchor="mut",
          rad="&**v as *const _ as *const u8 as usize", cad="std::uintptr_t(&v)", store=t, cv=True)
    x.rset = t.rset if t.rset else None if pin else "*x = mk_%s(k);" % t.n
    x.cset = t.cset if t.cset else "x = mk_%s(k);" % t.n
    return x


def sl(t, m=False):
    n = ("slm_" if m else "sl_") + t.n
    c = "rust::Slice<%s%s>" % ("" if m else "const ", t.c)
    x = T(n, ("&mut [%s]" if m else "&[%s]") % t.r, c, "%srs_sl_%s(k)%s" % (("&mut ", t.n, "[..k as usize]") if m else ("&", t.n, "[..k as usize]")),
          "v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_%s(v, (k + i as i32) & 3))" % t.n,
          "return %s(%s, k);" % (c, "cs_sl_%s(k)" % t.n),
          "v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_%s(v[i], (k + i) & 3)) return false; return true; }()" % t.n,
          deps=[t], anchor="mut" if m else "ref", kind="slm" if m else "ref", slice=t,
          rad="if v.is_empty() { 0 } else { v.as_ptr() as usize }", cad="v.empty() ? 0 : std::uintptr_t(v.data())")
    x.rset = "for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; %s }" % (t.rset or "*x = mk_%s(k);" % t.n)
    x.cset = "for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; %s }" % (t.cset.replace("x", "y", 1).replace("(k)", "(j)") if t.cset else "y = mk_%s(j);" % t.n)
    return x


ROBJ = T("RObj", "RObj", "RObj", "RObj::new(k)", "v.r_tag() == k && v.pad == TXT[k as usize]", None, "v.r_tag() == k", pod_c=False,
         rset="x.r_set(k);", cset="x.r_set(k);", cbox="r_new(k)")
COBJ = T("CObj", "CObj", "CObj", None, "v.c_tag() == k", "return CObj(k);", "v.c_tag() == k", triv=False,
         rset="x.c_set(k);", cset="x.c_set(k);", cnew="new CObj(k)")
CXXSTRING = T("CxxString", "CxxString", "std::string", None, "v.as_bytes() == TXT[k as usize].as_bytes()", "return TXT[k];", "v == TXT[k]", triv=False,
              rset="let mut x = x; x.as_mut().clear(); x.push_str(TXT[k as usize]);")


def enum(n, rep, vals, c):
    cc = "enum class %s : %s;" % (n, c)
    return T(n, n, n, "[%s][k as usize]" % ", ".join("%s::V%d" % (n, i) for i in range(4)), "*v == mk_%s(k) && v.repr == [%s][k as usize]" % (n, ", ".join(map(str, vals))),
             "%s t[4] = {%s}; return t[k];" % (n, ", ".join("%s::V%d" % (n, i) for i in range(4))), "v == mk_%s(k)" % n,
             decl="#[repr(%s)] #[derive(Debug)] enum %s { %s }" % (rep, n, ", ".join("V%d = %d" % x for x in enumerate(vals))), cdecl=cc)


EN = [enum("Eu8", "u8", [0, 1, 128, 255], "std::uint8_t"), enum("Ei8", "i8", [0, 1, -128, 127], "std::int8_t"),
      enum("Eu16", "u16", [0, 1, 32768, 65535], "std::uint16_t"), enum("Ei32", "i32", [-1, 0, 2**31 - 1, -2**31], "std::int32_t"),
      enum("Eu32", "u32", [0, 7, 2**31, 2**32 - 1], "std::uint32_t"), enum("Ei64", "i64", [-1, 1, 2**40, 2**63 - 1], "std::int64_t"),
      enum("Eu64", "u64", [0, 1, 2**33, 2**62], "std::uint64_t")]
XE = enum("XE", "u16", [3, 1, 500, 65535], "std::uint16_t")
XE.decl += "\n        extern \"C++\" { type XE; }"
XE.cdecl = "enum class XE : std::uint16_t { V0 = 3, V1 = 1, V2 = 500, V3 = 65535 };"


def triv(n, fields, extra=""):
    t = st(n, fields)
    t.item = "#[repr(C)] pub struct %s { %s }\nunsafe impl cxx::ExternType for %s { type Id = cxx::type_id!(\"@NS@::%s\"); type Kind = cxx::kind::Trivial; }" % (
        n, ", ".join("pub f%d: %s" % (i, f.r) for i, f in enumerate(fields)), n, n)
    t.decl = "extern \"C++\" { type %s = crate::@NS@::%s; }" % (n, n)
    t.cdecl = "struct %s { %s %s };" % (n, " ".join("%s f%d;" % (f.c, i) for i, f in enumerate(fields)),
                                       extra)
    if extra:
        t.cmk = "return %s(%s);" % (n, ", ".join("mk_%s((k + %d) & 3)" % (f.n, i) for i, f in enumerate(fields)))
    return t


def ptr(t, mut):
    m = "mut" if mut else "const"
    n = "ptr%s_%s" % (m, t.n)
    return T(n, "*%s %s" % (m, t.r), "%s %s*" % (t.c, "" if mut else "const "), "if k == 3 { std::ptr::null_mut() } else { rs_%s(k)%s as *const _ as *mut %s }" % (t.n, "" if t.triv else ".as_ref().get_ref()", t.r),
             "if k == 3 { v.is_null() } else { ck_%s(unsafe { &**v }, k) }" % t.n, "return k == 3 ? nullptr : &cs_%s(k);" % t.n, "k == 3 ? !v : ck_%s(*v, k)" % t.n, deps=[t],
             rad="*v as *const u8 as usize", cad="std::uintptr_t(v)", store=t, unsafe=True)


S1 = st("S1", [u8]); S2 = st("S2", [u8, u8]); S3 = st("S3", [f32, f32]); S4 = st("S4", [f64, u8]); S5 = st("S5", [u64, u64]); S6 = st("S6", [u64, u32, u64])
S7 = st("S7", [STRING]); S8 = st("S8", [box(ROBJ), u8]); S9 = st("S9", [up(COBJ)]); S10 = st("S10", [S3, S2, S7]); S11 = st("S11", [arr(u8, 3)])
S12 = st("S12", [arr(S2, 3), bool_]); S13 = st("S13", [vec(STRING), vec(S2)]); S14 = st("S14", [EN[2], bool_, EN[5]]); S15 = st("S15", [bool_]); S16 = st("S16", [STR, u16], lt=True)
S17 = st("S17", [f32, f64]); S18 = st("S18", [char, isize]); S19 = st("S19", [sp(COBJ), i16]); S20 = st("S20", [up(CXXSTRING)]); S21 = st("S21", [f32, f32, f32]); S22 = st("S22", [sl(u16), bool_], lt=True)
S23 = st("S23", [rf(S2)], lt=True)
TA = triv("TrivA", [i32]); TB = triv("TrivB", [f64, f64]); TC = triv("TrivC", [u64, u8, u64, u16]); TD = triv("TrivD", [f32, i32])
TM = triv("TrivM", [i32, u8], "TrivM(int a, int b) : f0(a), f1(b) {} TrivM(const TrivM &o) : f0(o.f0), f1(o.f1) {} TrivM &operator=(const TrivM &) = default; ~TrivM() { vk_sink = this; } using IsRelocatable = std::true_type;")

A = PRIMS + EN + [XE, STR, STRING, S1, S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, S12, S13, S14, S15, S16, S17, S18, S19, S20, S21, S22, S23,
                  TA, TB, TC, TD, TM, arr(u8, 4), arr(u32, 1), arr(STRING, 2), arr(S2, 3), arr(arr(i32, 2), 2), arr(EN[0], 2), arr(f64, 2), arr(bool_, 9)]
B = [box(ROBJ), box(S2), box(S7), box(TA), vec(u8), vec(i64), vec(bool_), vec(f32), vec(usize), vec(char), vec(STRING), vec(S2), vec(S7), vec(ROBJ), vec(EN[1]), vec(TA),
     up(COBJ), up(CXXSTRING), up(S2), up(S7), up(TA), up(cvec(u16)), up(cvec(CXXSTRING)), up(cvec(COBJ)), up(cvec(S7)), up(cvec(f64)),
     sp(COBJ), sp(CXXSTRING), sp(u32), sp(bool_), sp(f64), sp(S7), sp(TA), wp(COBJ), wp(CXXSTRING), wp(i64), wp(S2),
     rf(u8), rf(u64), rf(f64), rf(bool_), rf(STRING), rf(S2), rf(S7), rf(ROBJ), rf(COBJ), rf(CXXSTRING), rf(cvec(u8)), rf(cvec(CXXSTRING)), rf(vec(u8)), rf(vec(STRING)), rf(vec(ROBJ)),
     rf(box(ROBJ)), rf(up(COBJ)), rf(sp(COBJ)), rf(wp(COBJ)), rf(EN[0]), rf(TA), rf(arr(u8, 4)),
     mt(u8), mt(i64), mt(f32), mt(bool_), mt(STRING), mt(S2), mt(S7), mt(ROBJ), mt(COBJ), mt(CXXSTRING), mt(cvec(u8)), mt(cvec(S2)), mt(vec(u8)), mt(vec(STRING)), mt(box(ROBJ)), mt(up(COBJ)), mt(sp(COBJ)),
     mt(EN[3]), mt(TB), mt(arr(S2, 3)),
     sl(u8), sl(u16), sl(i32), sl(f64), sl(bool_), sl(usize), sl(char), sl(STRING), sl(S2), sl(S7), sl(EN[1]), sl(TA), sl(ROBJ), sl(box(ROBJ)), sl(up(COBJ)), sl(vec(u8)), sl(f32), sl(isize), sl(arr(u8, 4)),
     sl(u8, True), sl(i64, True), sl(f32, True), sl(STRING, True), sl(S7, True), sl(ROBJ, True), sl(char, True), sl(EN[2], True), sl(TC, True), sl(box(ROBJ), True),
     ptr(u8, False), ptr(u64, True), ptr(S2, False), ptr(S7, True), ptr(COBJ, True), ptr(COBJ, False), ptr(ROBJ, False), ptr(ROBJ, True), ptr(CXXSTRING, False)]

RPRE = r'''// Generated by gen_sig.py.
#![allow(clippy::all, unused_braces, static_mut_refs)]
use crate::engine::{rust_system, System};
use crate::ensure;
use core::ffi::c_char;
use core::pin::Pin;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use @NS@ffi::*;
static TXT: [&str; 4] = ["", "a", "h\u{e9}\0x", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\u{1F600}"];
#[unsafe(no_mangle)]
pub static mut vk_addr_@NS@: usize = 0;
fn addr() -> usize { unsafe { vk_addr_@NS@ } }
fn note(a: usize) { unsafe { vk_addr_@NS@ = a } }
pub struct RObj { tag: i32, pad: String }
impl RObj {
    fn new(k: i32) -> Self { RObj { tag: k, pad: TXT[k as usize].to_owned() } }
    fn r_tag(&self) -> i32 { self.tag }
    fn r_set(&mut self, k: i32) { *self = RObj::new(k) }
}
fn r_new(k: i32) -> Box<RObj> { Box::new(RObj::new(k)) }
type R<T> = Result<T, String>;
'''
CPRE = r'''// Generated by gen_sig.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
extern "C" std::uintptr_t vk_addr_@NS@;
namespace @NS@ {
static inline void note(std::uintptr_t a) { vk_addr_@NS@ = a; }
static const void *volatile vk_sink;
static const std::string TXT[4] = {"", "a", std::string("h\xc3\xa9\0x", 5), "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\xf0\x9f\x98\x80"};
struct RObj;
@DECL@
class CObj {
  int t; std::string pad; const CObj *self = this;
public:
  explicit CObj(int k) : t(k), pad(TXT[k]) {}
  CObj(const CObj &o) : t(o.t), pad(o.pad) {}
  CObj &operator=(const CObj &o) { t = o.t; pad = o.pad; return *this; }
  std::int32_t c_tag() const { return self == this && pad == TXT[t] ? t : -1; }
  void c_set(std::int32_t k) { t = k; pad = TXT[k]; }
@METHODS@
};
@FUNCS@
} // namespace @NS@
'''


def closure(types):
    out, seen = [], set()
    def go(t):
        if t.n in seen: return
        seen.add(t.n)
        for d in t.deps: go(d)
        out.append(t)
    for t in types: go(t)
    return out


def emit(ns, types, abi=None):
    base = [S3]
    allt = closure(base + types + [x for c in abi or [] for x in c[0] + ([c[1]] if c[1] else [])])
    names = {t.n for t in types}
    # types whose maker on one side is the other side's maker need the position
    for t in allt:
        if (getattr(t, "needc", False) or getattr(t, "needr", False)) and t.n not in names:
            types.append(t); names.add(t.n)
    rb, cb, cpp, hpp, rs, meth = [], [], [], [], [], []
    impls = sorted({t.impl for t in allt if getattr(t, "impl", "")})
    # ---- per-type helpers
    stores, slices = {}, {}
    for t in allt:
        if hasattr(t, "store"): stores[t.store.n] = t.store
        if hasattr(t, "slice"): slices[t.slice.n] = t.slice
    proto = []
    for t in allt:
        vt = t.r.replace("<'a>", "<'static>")
        lt = ("&'static " + vt[1:] if t.r.startswith("&") else vt).replace("Pin<&mut", "Pin<&'static mut")
        if t.triv and t.rmk:
            rs.append("fn mk_%s(k: i32) -> %s { %s }" % (t.n, lt, t.rmk))
        rs.append("fn ck_%s(v: &%s, k: i32) -> bool { %s }" % (t.n, t.r.replace("<'a>", "<'_>"), t.rck))
        rs.append("fn ad_%s(v: &%s) -> usize { %s }" % (t.n, t.r.replace("<'a>", "<'_>"), t.rad))
        if t.cmk:
            proto.append("[[maybe_unused]] static %s mk_%s(int k);" % (t.c, t.n))
            cpp.append("static %s mk_%s(int k) { %s }" % (t.c, t.n, t.cmk))
        cv = t.c if hasattr(t, "cv") else "%s const &" % t.c
        proto.append("[[maybe_unused]] static bool ck_%s(%s v, int k); [[maybe_unused]] static std::uintptr_t ad_%s(%s v);" % (t.n, cv, t.n, cv))
        cpp.append("static bool ck_%s(%s v, int k) { (void)k; return %s; }" % (t.n, cv, t.cck))
        cpp.append("static std::uintptr_t ad_%s(%s v) { (void)v; return %s; }" % (t.n, cv, t.cad))
    for n, t in stores.items():
        if t.triv:
            ty, get = t.r, ".as_mut().unwrap()"
            mk, rt = "mk_%s(k)" % n, "&'static mut " + t.r
        else:
            u = "UniquePtr<%s>" % t.r
            ty, mk, rt, get = u, "ffi::c_store_%s(k)" % n, "Pin<&'static mut %s>" % t.r, ".as_mut().unwrap().pin_mut()"
            cb.append("fn c_store_%s(k: i32) -> UniquePtr<%s>;" % (n, t.r))
            hpp.append("std::unique_ptr<%s> c_store_%s(std::int32_t k);" % (t.c, n))
            cpp.append("std::unique_ptr<%s> c_store_%s(std::int32_t k) { return std::unique_ptr<%s>(%s); }" % (t.c, n, t.c, t.cnew or "new %s(mk_%s(k))" % (t.c, n)))
        rs.append("static mut ST_%s: [Option<%s>; 4] = [None, None, None, None];" % (n, ty))
        rs.append("fn rs_%s(k: i32) -> %s { unsafe { ST_%s[k as usize] = Some(%s); ST_%s[k as usize]%s } }" % (n, rt, n, mk, n, get))
        rs.append("fn rp_%s(k: i32) -> &'static %s { unsafe { &*ST_%s[k as usize].as_ref().unwrap() } }" % (n, t.r, n))
        proto.append("[[maybe_unused]] static %s &cs_%s(int k); [[maybe_unused]] static %s &cp_%s(int k);" % (t.c, n, t.c, n))
        if t.pod_c:
            cpp.append("static std::unique_ptr<%s> ST_%s[4];" % (t.c, n))
            mkc = "ST_%s[k].reset(%s);" % (n, t.cnew or "new %s(mk_%s(k))" % (t.c, n))
        else:
            cpp.append("static std::unique_ptr<rust::Box<%s>> ST_%s[4];" % (t.c, n))
            mkc = "ST_%s[k].reset(new rust::Box<%s>(r_new(k)));" % (n, t.c)
        g = "*ST_%s[k]" % n if t.pod_c else "**ST_%s[k]" % n
        cpp.append("static %s &cs_%s(int k) { %s return %s; }" % (t.c, n, mkc, g))
        cpp.append("static %s &cp_%s(int k) { return %s; }" % (t.c, n, g))
    for n, t in slices.items():
        rs.append("static mut SL_%s: [Option<Vec<%s>>; 4] = [None, None, None, None];" % (n, t.r))
        rs.append("fn rs_sl_%s(k: i32) -> &'static mut Vec<%s> { unsafe { SL_%s[k as usize] = Some((0..4).map(|i| mk_%s((k + i) & 3)).collect()); SL_%s[k as usize].as_mut().unwrap() } }" % (n, t.r, n, n, n))
        rs.append("fn rp_sl_%s(k: i32) -> &'static mut Vec<%s> { unsafe { SL_%s[k as usize].as_mut().unwrap() } }" % (n, t.r, n))
        proto.append("[[maybe_unused]] static %s *cs_sl_%s(int k); [[maybe_unused]] static %s *cp_sl_%s(int k);" % (t.c, n, t.c, n))
        if t.pod_c:
            cpp.append("static std::unique_ptr<std::array<%s, 4>> SL_%s[4];" % (t.c, n))
            cpp.append("static %s *cs_sl_%s(int k) { SL_%s[k].reset(new std::array<%s, 4>{{%s}}); return SL_%s[k]->data(); }" % (
                t.c, n, n, t.c, ", ".join("mk_%s((k + %d) & 3)" % (n, i) for i in range(4)), n))
            cpp.append("static %s *cp_sl_%s(int k) { return SL_%s[k]->data(); }" % (t.c, n, n))
        else:
            rb.append("fn r_slice_%s(k: i32) -> Vec<%s>;" % (n, t.r))
            rs.append("fn r_slice_%s(k: i32) -> Vec<%s> { (0..4).map(|i| mk_%s((k + i) & 3)).collect() }" % (n, t.r, n))
            cpp.append("static std::unique_ptr<rust::Vec<%s>> SL_%s[4];" % (t.c, n))
            cpp.append("static %s *cs_sl_%s(int k) { SL_%s[k].reset(new rust::Vec<%s>(r_slice_%s(k))); return SL_%s[k]->data(); }" % (t.c, n, n, t.c, n, n))
            cpp.append("static %s *cp_sl_%s(int k) { return SL_%s[k]->data(); }" % (t.c, n, n))
    late = []
    def cfun(ret, name, args, body):
        hpp.append("%s %s(%s);" % (ret, name, args))
        late.append("%s %s(%s) { %s }" % (ret, name, args, body))
    sysl = []
    for idx, t in enumerate(types):
        n, r, c = t.n, t.r, t.c
        isref = t.kind != "val"
        an = getattr(t, "anchor", None)
        ra = {None: "", "ref": "z: &u8, ", "mut": "z: &mut u8, "}[an]
        ca = {None: "", "ref": "std::uint8_t const &, ", "mut": "std::uint8_t &, "}[an]
        G = "<'a>" if t.lt else ""
        if t.lt: ra, ca = "z: &'a u8, ", "std::uint8_t const &, "
        zarg = "" if not ra else "&mut Z, " if an == "mut" else "&Z, "
        czarg = "" if not ra else "Z, "
        U = "unsafe " if (t.lt or t.unsafe) else ""
        RU = U
        CU = "unsafe " if t.unsafe else ""
        setx = t.cset if t.kind in ("mut", "slm") else ""
        rsetx = t.rset if t.kind in ("mut", "slm") else ""
        def cset(x, k): return setx and "{ auto &&x = %s; int k_ = k; { int k = (%s) & 3; (void)k_; %s } }" % (x, k, setx)
        # --- C++ functions
        tomove = "std::move(x)" if not isref else "x"
        cb.append("%sfn c_take_%s%s(x: %s, k: i32) -> bool;" % (CU, n, G, r))
        late_take = "note(ad_%s(x)); if (!ck_%s(x, k)) return false; " % (n, n)
        if setx: late_take += "int k1 = (k + 1) & 3; { int k = k1; %s } " % setx
        cfun("bool", "c_take_%s" % n, "%s x, std::int32_t k" % c, late_take + "return true;")
        cb.append("%sfn c_make_%s%s(%sk: i32) -> %s;" % (CU, n, G, ra, r))
        ldecl = c if isref and hasattr(t, "cv") else c
        cfun(c, "c_make_%s" % n, "%sstd::int32_t k" % ca, "%s x = mk_%s(k); note(ad_%s(x)); return x;" % (ldecl, n, n))
        cb.append("%sfn c_try_%s%s(%sk: i32, fail: bool) -> Result<%s>;" % (CU, n, G, ra, r))
        cfun(c, "c_try_%s" % n, "%sstd::int32_t k, bool fail" % ca, "if (fail) throw std::runtime_error(TXT[k].c_str()); %s x = mk_%s(k); note(ad_%s(x)); return x;" % (ldecl, n, n))
        cb.append("%sfn c_echo_%s%s(x: %s, k: i32) -> %s;" % (CU, n, G, r, r))
        cfun(c, "c_echo_%s" % n, "%s x, std::int32_t k" % c, "note(ck_%s(x, k) ? ad_%s(x) : 1); return %s;" % (n, n, tomove if not t.kind == "slm" else "std::move(x)"))
        cb.append("%sfn c_mix_%s%s(a: u8, x: %s, b: f64, k: i32, y: %s, c: u16) -> Result<bool>;" % (CU, n, G, r, r))
        cfun("bool", "c_mix_%s" % n, "std::uint8_t a, %s x, double b, std::int32_t k, %s y, std::uint16_t c" % (c, c),
             "return a == 200 && ck_%s(x, k) && b == -1.5 && ck_%s(y, (k + 1) & 3) && c == 60000;" % (n, n))
        recv = RECV[idx % 4]
        mret = "bool" if isref or ra else r
        cmret = "bool" if isref or ra else c
        cb.append("%sfn c_m_%s%s(self: %s, x: %s, k: i32) -> %s;" % (CU, n, G, recv, r, mret))
        const = " const" if recv.startswith("&") and "mut" not in recv else ""
        cls = "S3" if "S3" in recv else "CObj"
        selfck = "ck_%s(*this, 2)" % cls
        mbody = ("return %s && ck_%s(x, k);" % (selfck, n)) if mret == "bool" and mret != r else "note(%s && ck_%s(x, k) ? 0 : 1); return x;" % (selfck, n) if cmret != c else "note(%s && ck_%s(x, k) ? 0 : 1); return std::move(x);" % (selfck, n)
        if n == "bool": mbody = "note(%s && ck_%s(x, k) ? 0 : 1); return x;" % (selfck, n)
        if cls == "CObj": meth.append("  %s c_m_%s(%s x, std::int32_t k)%s;" % (cmret, n, c, const))
        late.append("%s %s::c_m_%s(%s x, std::int32_t k)%s%s { %s }" % (cmret, cls, n, c, const, " noexcept" if cls == "S3" else "", mbody))
        hascb = not (t.lt or t.unsafe)
        if hascb:
            cb.append("fn c_cb_%s(f: fn(%s, i32) -> %s, k: i32) -> bool;" % (n, r, r))
            cfun("bool", "c_cb_%s" % n, "rust::Fn<%s(%s, std::int32_t)> f, std::int32_t k" % (c, c),
                 "%s y = f(mk_%s(k), k); return ck_%s(y, k);" % (c, n, n))
        # --- Rust functions
        rp = "unsafe " if RU else ""
        rb.append("%sfn r_take_%s%s(x: %s, k: i32) -> bool;" % (rp, n, G, r))
        xs = "{ let x: %s = x; let k = (k + 1) & 3; %s }" % (r, rsetx) if rsetx else ""
        rs.append("%sfn r_take_%s%s(mut x: %s, k: i32) -> bool { let a = ad_%s(&x); let ok = ck_%s(&x, k); %s note(a); ok }" % (rp, n, G, r, n, n, xs))
        rb.append("%sfn r_make_%s%s(%sk: i32) -> %s;" % (rp, n, G, ra, r))
        rs.append("%sfn r_make_%s%s(%sk: i32) -> %s { let x = mk_%s(k); note(ad_%s(&x)); x }" % (rp, n, G, ra, r, n, n))
        rb.append("%sfn r_try_%s%s(%sk: i32, fail: bool) -> Result<%s>;" % (rp, n, G, ra, r))
        rs.append("%sfn r_try_%s%s(%sk: i32, fail: bool) -> R<%s> { if fail { return Err(TXT[k as usize].split('\\0').next().unwrap().to_owned()); } let x = mk_%s(k); note(ad_%s(&x)); Ok(x) }" % (rp, n, G, ra, r, n, n))
        rb.append("%sfn r_echo_%s%s(x: %s, k: i32) -> %s;" % (rp, n, G, r, r))
        rs.append("%sfn r_echo_%s%s(x: %s, k: i32) -> %s { note(if ck_%s(&x, k) { ad_%s(&x) } else { 1 }); x }" % (rp, n, G, r, r, n, n))
        rb.append("%sfn r_mix_%s%s(a: u8, x: %s, b: f64, k: i32, y: %s, c: u16) -> Result<bool>;" % (rp, n, G, r, r))
        rs.append("%sfn r_mix_%s%s(a: u8, x: %s, b: f64, k: i32, y: %s, c: u16) -> R<bool> { Ok(a == 200 && ck_%s(&x, k) && b == -1.5 && ck_%s(&y, (k + 1) & 3) && c == 60000) }" % (rp, n, G, r, r, n, n))
        rrecv = RRECV[(idx + 1) % 4]
        rcls = "S3" if "S3" in rrecv else "RObj"
        rself = "&mut self" if "mut" in rrecv else "&self"
        rb.append("%sfn r_m_%s%s(self: %s, x: %s, k: i32) -> %s;" % (rp, n, G, rrecv, r, mret))
        mb = "ck_%s(self, 2) && ck_%s(&x, k)" % (rcls, n)
        if not (isref or ra): mb = "note(if %s { 0 } else { 1 }); x" % mb
        rs.append("impl %s { %sfn r_m_%s%s(%s, x: %s, k: i32) -> %s { %s } }" % (rcls, rp, n, G, rself, r, mret, mb))
        # --- C++ caller
        cb.append("fn c_run_%s(pos: i32, k: i32) -> i32;" % n)
        mkmove = "mk_%s(k)" % n
        peek = ""
        if t.kind == "mut": peek = " if (!ck_%s(cp_%s(k), (k + 1) & 3)) return 12;" % (n, t.store.n)
        if t.kind == "slm": peek = " if (!ck_%s(%s(cp_sl_%s(k), k), (k + 1) & 3) && k) return 12;" % (n, c, t.slice.n)
        # ck of slice with k+1 expects length k+1: compare elementwise instead
        if t.kind == "slm": peek = " { rust::Slice<%s> p(cp_sl_%s(k), k); for (int i = 0; i < k; i++) if (!ck_%s(p[i], (k + 1 + i) & 3)) return 12; }" % (t.slice.c, t.slice.n, t.slice.n)
        fwd = "std::move(x)" if not (hasattr(t, "cv")) else "x"
        smk = {"RObj": "rust::Box<RObj> s = r_new(2); auto &o = *s;", "S3": "S3 s = mk_S3(2); S3 &o = s;"}[rcls]
        mcall = "%s o.r_m_%s(%s, k)" % ("return" if mret == "bool" and (isref or ra) else c + " y =", n, fwd)
        body = "std::uint8_t Z = 0; (void)Z; switch (pos) {\n"
        body += " case 0: { %s x = mk_%s(k); auto a = ad_%s(x); if (!r_take_%s(%s, k)) return 10; if (vk_addr_%s != a) return 11;%s return 0; }\n" % (c, n, n, n, fwd, ns, peek)
        body += " case 1: { %s x = r_make_%s(%sk); return ck_%s(x, k) && (vk_addr_%s == ad_%s(x)) ? 0 : 13; }\n" % (c, n, czarg, n, ns, n)
        body += " case 2: { %s x = r_try_%s(%sk, false); return ck_%s(x, k) && (vk_addr_%s == ad_%s(x)) ? 0 : 14; }\n" % (c, n, czarg, n, ns, n)
        body += " case 3: { try { (void)r_try_%s(%sk, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }\n" % (n, czarg)
        body += " case 4: { %s x = mk_%s(k); auto a = ad_%s(x); %s y = r_echo_%s(%s, k); return vk_addr_%s == a && ad_%s(y) == a && ck_%s(y, k) ? 0 : 17; }\n" % (c, n, n, c, n, fwd, ns, n, n)
        body += " case 5: { return r_mix_%s(200, mk_%s(k), -1.5, k, mk_%s((k + 1) & 3), 60000) ? 0 : 18; }\n" % (n, n, n)
        if mret == "bool" and (isref or ra):
            body += " case 6: { %s %s x = mk_%s(k); return o.r_m_%s(%s, k) ? 0 : 19; }\n" % (smk, c, n, n, fwd)
        else:
            body += " case 6: { %s %s x = mk_%s(k); %s y = o.r_m_%s(%s, k); return vk_addr_%s == 0 && ck_%s(y, k) ? 0 : 19; }\n" % (smk, c, n, c, n, fwd, ns, n)
        body += " }\n return -1;"
        cfun("std::int32_t", "c_run_%s" % n, "std::int32_t pos, std::int32_t k", body)
        # --- Rust driver
        rpeek = ""
        if t.kind == "mut": rpeek = "ensure!(ck_%s(rp_%s(k), (k + 1) & 3), \"mutation not seen\");" % (t.store.n, t.store.n)
        if t.kind == "slm": rpeek = "ensure!(rp_sl_%s(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_%s(v, (k + 1 + i as i32) & 3)), \"mutation not seen\");" % (t.slice.n, t.slice.n)
        smk = {"CObj": "let mut s = ffi::c_store_CObj(2); let o = s.pin_mut();", "S3": "let mut s = mk_S3(2); let o = &mut s;"}[cls]
        d = "unsafe fn run_%s(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {\n" % n
        d += "  0 => { let x = mk_%s(k); let a = ad_%s(&x); ensure!(ffi::c_take_%s(x, k), \"argument Rust to C++\"); ensure!(addr() == a, \"identity\"); %s }\n" % (n, n, n, rpeek)
        d += "  1 => { let x = ffi::c_make_%s(%sk); ensure!(ck_%s(&x, k) && addr() == ad_%s(&x), \"return C++ to Rust\"); }\n" % (n, zarg, n, n)
        d += "  2 => { let x = ffi::c_try_%s(%sk, false).map_err(|e| e.to_string())?; ensure!(ck_%s(&x, k) && addr() == ad_%s(&x), \"Ok return C++ to Rust\"); }\n" % (n, zarg, n, n)
        d += "  3 => { match ffi::c_try_%s(%sk, true) { Ok(_) => return Err(\"exception lost\".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\\0').next().unwrap(), \"message {:?}\", e.what()) } }\n" % (n, zarg)
        d += "  4 => { let x = mk_%s(k); let a = ad_%s(&x); let y = ffi::c_echo_%s(x, k); ensure!(addr() == a && ad_%s(&y) == a && ck_%s(&y, k), \"echo through C++\"); }\n" % (n, n, n, n, n)
        d += "  5 => { ensure!(ffi::c_mix_%s(200, mk_%s(k), -1.5, k, mk_%s((k + 1) & 3), 60000).map_err(|e| e.to_string())?, \"mixed arguments Rust to C++\"); }\n" % (n, n, n)
        if mret == "bool" and (isref or ra):
            d += "  6 => { %s let x = mk_%s(k); ensure!(o.c_m_%s(x, k), \"method\"); }\n" % (smk, n, n)
        else:
            d += "  6 => { %s let x = mk_%s(k); let y = o.c_m_%s(x, k); ensure!(addr() == 0 && ck_%s(&y, k), \"method\"); }\n" % (smk, n, n, n)
        if hascb:
            d += "  7 => { fn f(x: %s, k: i32) -> %s { note(if ck_%s(&x, k) { ad_%s(&x) } else { 1 }); x } ensure!(ffi::c_cb_%s(f, k) && addr() != 1, \"function pointer\"); }\n" % (r, r, n, n, n)
        else:
            d += "  7 => {}\n"
        d += "  p => { let x = ffi::c_run_%s(p as i32 - 8, k); ensure!(x == 0, \"C++ caller: code {}\", x); }\n } Ok(()) }" % n
        rs.append(d)
        sysl.append(n)
    for i, (args, ret, throws) in enumerate(abi or []):
        N = "abi%d" % i
        ra = ", ".join("a%d: %s" % (j, a.r) for j, a in enumerate(args))
        cc = ", ".join("%s a%d" % (a.c, j) for j, a in enumerate(args))
        rr = "" if ret is None else " -> Result<%s>" % ret.r if throws else " -> " + ret.r
        ir = "" if ret is None else " -> R<%s>" % ret.r if throws else " -> " + ret.r
        cr = "void" if ret is None else ret.c
        cb.append("fn c_%s(%s, k: i32)%s;" % (N, ra, rr))
        rb.append("fn r_%s(%s, k: i32)%s;" % (N, ra, rr))
        cb.append("fn c_run_%s(k: i32) -> bool;" % N)
        cfun(cr, "c_" + N, cc + ", std::int32_t k", "note(%s ? 7 : 8);" % " && ".join("ck_%s(a%d, (k + %d) & 3)" % (a.n, j, j) for j, a in enumerate(args)) + (" return mk_%s(k);" % ret.n if ret else ""))
        rs.append("fn r_%s(%s, k: i32)%s { let ok = %s; %s }" % (N, ra, ir, " && ".join("ck_%s(&a%d, (k + %d) & 3)" % (a.n, j, j) for j, a in enumerate(args)),
                  "note(if ok { 7 } else { 8 });" if not ret else ("let x = mk_%s(k); note(if ok { 7 } else { 8 });" % ret.n) + (" Ok(x)" if throws else " x")))
        cm = ", ".join("mk_%s((k + %d) & 3)" % (a.n, j) for j, a in enumerate(args))
        cfun("bool", "c_run_" + N, "std::int32_t k", ("%s x = r_%s(%s, k); return vk_addr_%s == 7 && ck_%s(x, k);" % (cr, N, cm, ns, ret.n)) if ret else "r_%s(%s, k); return vk_addr_%s == 7;" % (N, cm, ns))
        call = "ffi::c_%s(%s, k)" % (N, cm) + (".map_err(|e| e.to_string())?" if throws else "")
        rs.append("fn go_%s(k: i32) -> R<()> { let x = %s; ensure!(addr() == 7, \"arguments Rust to C++\"); %s ensure!(ffi::c_run_%s(k), \"C++ to Rust\"); Ok(()) }" % (
            N, call, "ensure!(ck_%s(&x, k), \"return\");" % ret.n if ret else "", N))
    # stores of opaque C++ objects used by the method tests
    if "CObj" not in stores:
        cb.append("fn c_store_CObj(k: i32) -> UniquePtr<CObj>;")
        hpp.append("std::unique_ptr<CObj> c_store_CObj(std::int32_t k);")
        cpp.append("std::unique_ptr<CObj> c_store_CObj(std::int32_t k) { return std::unique_ptr<CObj>(new CObj(k)); }")
        if "CObj" not in {t.n for t in allt}:
            cpp.append("static bool ck_CObj(const CObj &v, int k) { return v.c_tag() == k; }")
    if "CObj" in {t.n for t in allt} and False: pass
    if "RObj" not in {t.n for t in allt}:
        rs.append("fn ck_RObj(v: &RObj, k: i32) -> bool { v.r_tag() == k }")
    sub = lambda s: s.replace("@NS@", ns)
    rust = sub(RPRE).replace("use %sffi" % ns, "use self::ffi") 
    rust += "#[cxx::bridge(namespace = \"%s\")]\nmod ffi {\n" % ns
    for t in allt:
        if t.decl: rust += "    " + sub(t.decl) + "\n"
    rust += "    unsafe extern \"C++\" {\n        include!(\"rt/cc/%s.hpp\");\n        type CObj;\n        fn c_tag(self: &CObj) -> i32;\n        fn c_set(self: Pin<&mut CObj>, k: i32);\n" % ns
    rust += "".join("        %s\n" % x for x in cb) + "    }\n    extern \"Rust\" {\n        type RObj;\n        fn r_new(k: i32) -> Box<RObj>;\n        fn r_tag(self: &RObj) -> i32;\n        fn r_set(self: &mut RObj, k: i32);\n"
    rust += "".join("        %s\n" % x for x in rb) + "    }\n" + "".join("    impl %s {}\n" % x for x in impls if not x.startswith(("UniquePtr<CObj", "CxxVector<CObj"))) + "}\n"
    rust += "".join(sub(t.item) + "\n" for t in allt if t.item) + "\n".join(rs) + "\n"
    rust += "pub fn systems() -> Vec<System> { let mut v = vec![];\n"
    rust += "let ops: Vec<String> = (0..60).map(|i| format!(\"{}({})\", [\"c_take\", \"c_make\", \"c_try\", \"c_try_fail\", \"c_echo\", \"c_mix\", \"c_method\", \"c_callback\", \"r_take\", \"r_make\", \"r_try\", \"r_try_fail\", \"r_echo\", \"r_mix\", \"r_method\"][i / 4], i % 4)).collect();\n"
    rust += "let mut add = |n: &str, f: unsafe fn(usize, i32) -> R<()>| { v.push(rust_system(&format!(\"sig-{}-{}\", \"%s\", n), ops.clone(), move |t, key| { for x in t { unsafe { f(*x as usize / 4, *x as i32 %% 4)? } } key.push(t.last().map_or(255, |x| *x as u8)); Ok(true) })); };\n" % ns
    for n in sysl: rust += "add(\"%s\", run_%s);\n" % (n, n)
    if abi:
        rust += "let fs: &'static [(&'static str, fn(i32) -> R<()>)] = &[%s];\n" % ", ".join('("%s", go_abi%d)' % (" ".join(a.n for a in x[0]) + " -> " + (("Result " if x[2] else "") + (x[1].n if x[1] else "()")), i) for i, x in enumerate(abi))
        rust += "v.push(rust_system(\"abi-%s\", fs.iter().flat_map(|f| (0..4).map(move |k| format!(\"({})({})\", f.0, k))).collect(), move |t, key| { for x in t { fs[*x as usize / 4].1(*x as i32 %% 4)? } key.extend(t.last().map_or(999u16, |x| *x).to_le_bytes()); Ok(true) }));\n" % ns
    rust += "v }\n"
    open(os.path.join(HERE, "src/%s.rs" % ns), "w").write(rust)
    decl = "\n".join(sub(t.cdecl) for t in allt if t.cdecl)
    open(os.path.join(HERE, "cc/%s.hpp" % ns), "w").write(sub(CPRE).replace("@DECL@", decl).replace("@METHODS@", "\n".join(meth)).replace("@FUNCS@", "\n".join(hpp)))
    open(os.path.join(HERE, "cc/%s.cc" % ns), "w").write("// Generated by gen_sig.py.\n#include \"rt/src/%s.rs.h\"\nnamespace %s {\n" % (ns, ns) + "\n".join(proto) + "\n" + "\n".join(cpp) + "\n" + "\n".join(late) + "\n}\n")


if __name__ == "__main__":
    half = len(B) // 2
    emit("c09a", list(A))
    emit("c09b", list(B[:half]))
    emit("c09c", list(B[half:]))
    al = [u8, u64, f32, f64, S2, S3, S6, STRING, STR, box(ROBJ), up(COBJ), sl(u16), bool_, EN[0], TA, arr(u8, 4), rf(S2), sp(COBJ), wp(COBJ), vec(u8), rf(ROBJ), mt(S7), i8, char]
    p = al[:12] + [TA, sp(COBJ)]
    rets = [None, STRING, S3, S6, box(ROBJ), u8, f64, up(COBJ), vec(u8), sp(COBJ), TA, EN[0], arr(u8, 4)]
    combos = [[a, b] for a in p for b in p] + [[a, b, c] for a in p[0:10:2] + [S3] for b in p[1:8:2] + [S6] for c in [u8, f64, STR, S3]]
    combos += [al[i:] + al[:i] for i in range(0, len(al), 2)]
    combos += [(al * 2)[i:i + n] for n in (4, 5, 6, 7, 8) for i in range(0, len(al), 3)]
    emit("c09d", [], [(c, rets[i % 13], (i // 13) % 3 == 1 and rets[i % 13] is not None) for i, c in enumerate(combos)])
