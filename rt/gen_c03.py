#!/usr/bin/env python3
"""Writes src/c03.rs (bridge with one helper set per element type)."""
import os
R = os.path.dirname(os.path.abspath(__file__))
PRIMS = "u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64".split()
# name -> (bridge type, make expr, value expr)
T = {p: (p, "k as %s" % p, "*x as i32") for p in PRIMS}
T["bool"] = ("bool", "k & 1 == 1", "*x as i32")
T["chr"] = ("c_char", "k as std::ffi::c_char", "*x as i32")
T["string"] = ("String", "text(k).to_owned()", "untext(x)")

T["sh"] = ("Sh", "ffi::Sh { s: text(k).to_owned(), n: k }", "{ assert_eq!(untext(&x.s), x.n); x.n }")
T["bx"] = ("Bx", "ffi::Bx { b: Box::new(Op::new(k)), n: k }", "{ assert_eq!(x.b.val(), x.n); x.n }")
T["en"] = ("En", "ffi::En { repr: k as u16 }", "x.repr as i32")
T["tracked"] = ("Tracked", "Tracked::new(k)", "x.val")
T["op"] = ("Op", "Op::new(k)", "x.val()")
T["big"] = ("Big", "Big::new(k)", "x.val()")
o = ["""//! Generated by gen_c03.py.
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
#[cxx::bridge(namespace = "c03")]
mod ffi {
    struct Sh {
        s: String,
        n: i32,
    }
    struct Bx {
        b: Box<Op>,
        n: i32,
    }
    #[repr(u16)]
    enum En {
        A = 1,
        B = 2,
        C = 3,
        D = 60000,
    }
    unsafe extern "C++" {
        include!("rt/cc/c03.hpp");
        type Tracked = crate::c03::Tracked;
        #[namespace = ""]
        type c_char = crate::c03::c_char;
    }
    impl Vec<Tracked> {}
    extern "Rust" {
        type Op;
        fn val(self: &Op) -> i32;
        fn set(self: &mut Op, k: i32);
        type Big;
        #[cxx_name = "val"]
        fn val(self: &Big) -> i32;
        fn set(self: &mut Big, k: i32);
        fn rust_objs() -> i64;
        fn box_op(k: i32) -> Box<Op>;
"""]
T.pop("chr")
s = o[0].replace("""        #[namespace = ""]
        type c_char = crate::c03::c_char;
""", "")
body = []
def ty(n):
    return T[n][0]
SAFE = lambda n: "" if n != "str" else ""
for n in T:
    t = ty(n)
    if n == "str":
        s += """        unsafe fn push_str_<'a>(v: &mut Vec<&'a str>, k: i32);
        unsafe fn pop_str_<'a>(v: &mut Vec<&'a str>) -> i32;
        unsafe fn echo_str_<'a>(v: Vec<&'a str>) -> Vec<&'a str>;
        unsafe fn at_str_<'a>(v: &Vec<&'a str>, i: usize) -> i32;
        unsafe fn make_str_<'a>(n: usize) -> Vec<&'a str>;
        unsafe fn len_str_<'a>(v: &Vec<&'a str>) -> usize;
""".replace("str_", "str")
        sig = "&'static str"
        g = ""
    else:
        s += """        fn push_{n}(v: &mut Vec<{t}>, k: i32);
        fn pop_{n}(v: &mut Vec<{t}>) -> i32;
        fn echo_{n}(v: Vec<{t}>) -> Vec<{t}>;
        fn at_{n}(v: &Vec<{t}>, i: usize) -> i32;
        fn make_{n}(n: usize) -> Vec<{t}>;
        fn len_{n}(v: &Vec<{t}>) -> usize;
""".format(n=n, t=t)
        sig = t if t[0].islower() or t in ("String", "Tracked", "Op", "Big") else "ffi::" + t
        g = ""
    if n == "str":
        body.append("""
unsafe fn push_str<'a>(v: &mut Vec<&'a str>, k: i32) { v.push(text(k)) }
unsafe fn pop_str<'a>(v: &mut Vec<&'a str>) -> i32 { let x = &v.pop().unwrap(); untext(x) }
unsafe fn echo_str<'a>(v: Vec<&'a str>) -> Vec<&'a str> { v }
unsafe fn at_str<'a>(v: &Vec<&'a str>, i: usize) -> i32 { untext(v[i]) }
unsafe fn len_str<'a>(v: &Vec<&'a str>) -> usize { v.len() }
unsafe fn make_str<'a>(n: usize) -> Vec<&'a str> { (0..n as i32).map(|k| text(k % 3 + 1)).collect() }
""")
    else:
        body.append("""
fn push_{n}(v: &mut Vec<{t}>, k: i32) {{ v.push({mk}) }}
fn pop_{n}(v: &mut Vec<{t}>) -> i32 {{ let x = &v.pop().unwrap(); {val} }}
fn echo_{n}(v: Vec<{t}>) -> Vec<{t}> {{ v }}
fn at_{n}(v: &Vec<{t}>, i: usize) -> i32 {{ let x = &v[i]; {val} }}
fn len_{n}(v: &Vec<{t}>) -> usize {{ v.len() }}
fn make_{n}(n: usize) -> Vec<{t}> {{ (0..n as i32).map(|k| {{ let k = k % 3 + 1; {mk} }}).collect() }}
""".format(n=n, t=sig, mk=T[n][1], val=T[n][2]))
s += "    }\n}\n"
s += """
static OBJS: AtomicI64 = AtomicI64::new(0);
fn rust_objs() -> i64 { OBJS.load(Relaxed) }
const TEXTS: [&str; 4] = ["", "one", "the second text is longer than any small buffer", "3"];
fn text(k: i32) -> &'static str { TEXTS[k as usize] }
fn untext(s: &str) -> i32 { TEXTS.iter().position(|t| *t == s).map(|x| x as i32).unwrap_or(-1) }
const MAGIC: u32 = 0x5ca1ab1e;
pub struct Op { v: i32, magic: u32 }
impl Op {
    fn new(v: i32) -> Self { OBJS.fetch_add(1, Relaxed); Op { v, magic: MAGIC } }
    fn val(&self) -> i32 { assert_eq!(self.magic, MAGIC); self.v }
    fn set(&mut self, k: i32) { self.v = k }
}
impl Drop for Op { fn drop(&mut self) { assert_eq!(self.magic, MAGIC, "dropped twice"); self.magic = 0; OBJS.fetch_sub(1, Relaxed); } }
fn box_op(k: i32) -> Box<Op> { Box::new(Op::new(k)) }
pub struct Big { a: [u64; 5], o: Op }
impl Big {
    fn new(v: i32) -> Self { Big { a: [v as u64; 5], o: Op::new(v) } }
    fn val(&self) -> i32 { assert!(self.a.iter().all(|x| *x == self.o.v as u64)); self.o.val() }
    fn set(&mut self, k: i32) { self.a = [k as u64; 5]; self.o.set(k) }
}
#[repr(C)]
pub struct Tracked { id: u64, val: i32, pad: i32 }
unsafe impl cxx::ExternType for Tracked { type Id = cxx::type_id!("c03::Tracked"); type Kind = cxx::kind::Trivial; }
unsafe extern "C" { fn vk_tracked_new() -> u64; fn vk_tracked_drop(id: u64); }
impl Tracked { fn new(val: i32) -> Self { Tracked { id: unsafe { vk_tracked_new() }, val, pad: 0 } } }
impl Drop for Tracked { fn drop(&mut self) { unsafe { vk_tracked_drop(self.id) } } }
"""
open(os.path.join(R, "src/c03.rs"), "w").write(s + "".join(body))
