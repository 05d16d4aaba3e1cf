#!/usr/bin/env python3
"""Generates src/c10.rs and cc/c10.{hpp,cc} (C10: ownership across calls)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
SH_R = "Sh { b: Box::new(RObj::new(k)), u: ffi::mkcobj(k), s: text(k), v: vec![k as u8; 3], p: ffi::mkshared(k) }"
SH_V = "if x.u.val() == x.b.val && x.p.val() == x.b.val && x.s == text(x.b.val) && x.v == [x.b.val as u8; 3] { x.b.val } else { -2 }"
# tag, Rust type, C++ type, Rust construction, Rust value, ledger units, C++ construction, C++ value
K = [
 ("box", "Box<RObj>", "rust::Box<RObj>", "Box::new(RObj::new(k))", "x.val", 1, "mkrobj(k)", "rval(*x)"),
 ("vec", "Vec<RObj>", "rust::Vec<RObj>", "vec![RObj::new(k), RObj::new(k)]", "if x.len() == 2 { x[0].val } else { -2 }", 2, "mkvec(k)", "x.size() == 2 ? rval(x.front()) : -2"),
 ("string", "String", "rust::String", "text(k)", "TEXTS.iter().position(|t| *t == x.as_str()).map_or(-2, |i| i as i32)", 0, "rust::String(ctext(k))", "cpos(std::string(x))"),
 ("unique", "UniquePtr<CObj>", "std::unique_ptr<CObj>", "ffi::mkcobj(k)", "x.val()", 1, "mkcobj(k)", "x->val()"),
 ("base", "UniquePtr<Base>", "std::unique_ptr<Base>", "ffi::mkbase(k)", "x.bval()", 1, "mkbase(k)", "x->bval()"),
 ("shared", "SharedPtr<CObj>", "std::shared_ptr<CObj>", "ffi::mkshared(k)", "x.val()", 1, "mkshared(k)", "x->val()"),
 ("ustring", "UniquePtr<CxxString>", "std::unique_ptr<std::string>", "{ cxx::let_cxx_string!(t = text(k)); ffi::mkustring(&t) }", "TEXTS.iter().position(|t| *t == x.to_str().unwrap()).map_or(-2, |i| i as i32)", 0, "std::make_unique<std::string>(ctext(k))", "cpos(*x)"),
 ("uvec", "UniquePtr<CxxVector<CObj>>", "std::unique_ptr<std::vector<CObj>>", "ffi::mkuvec(k)", "if x.len() == 2 { x.get(1).unwrap().val() } else { -2 }", 2, "mkuvec(k)", "x->size() == 2 ? x->at(1).val() : -2"),
 ("sh", "Sh", "Sh", SH_R, SH_V, 3, "mksh(k)", "shval(x)"),
 ("vecsh", "Vec<Sh>", "rust::Vec<Sh>", "vec![mk_sh(k), mk_sh(k)]", "if x.len() == 2 && val_sh(&x[0]) == val_sh(&x[1]) { val_sh(&x[0]) } else { -2 }", 6, "mkvecsh(k)", "x.size() == 2 ? shval(x[1]) : -2"),
 ("boxsh", "Box<Sh>", "rust::Box<Sh>", "Box::new(mk_sh(k))", "val_sh(x)", 3, "rust::Box<Sh>(mksh(k))", "shval(*x)"),
 ("uniquesh", "UniquePtr<Sh>", "std::unique_ptr<Sh>", "UniquePtr::new(mk_sh(k))", "val_sh(x)", 3, "std::make_unique<Sh>(mksh(k))", "shval(*x)"),
 ("sharedsh", "SharedPtr<Sh>", "std::shared_ptr<Sh>", "SharedPtr::new(mk_sh(k))", "val_sh(x)", 3, "std::make_shared<Sh>(mksh(k))", "shval(*x)"),
 ("arrbox", "[Box<RObj>; 2]", "std::array<rust::Box<RObj>, 2>", "[Box::new(RObj::new(k)), Box::new(RObj::new(k))]", "if x[0].val == x[1].val { x[0].val } else { -2 }", 2, "{{mkrobj(k), mkrobj(k)}}", "rval(*x[0])"),
 ("arrsh", "[Sh; 2]", "std::array<Sh, 2>", "[mk_sh(k), mk_sh(k)]", "if val_sh(&x[0]) == val_sh(&x[1]) { val_sh(&x[0]) } else { -2 }", 6, "{{mksh(k), mksh(k)}}", "shval(x[1])"),
 ("tracked", "Tracked", "Tracked", "Tracked::new(k)", "x.val", 1, "Tracked(k)", "x.val"),
 ("vectr", "Vec<Tracked>", "rust::Vec<Tracked>", "vec![Tracked::new(k)]", "if x.len() == 1 { x[0].val } else { -2 }", 1, "mkvectr(k)", "x.size() == 1 ? x[0].val : -2"),
 ("boxtr", "Box<Tracked>", "rust::Box<Tracked>", "Box::new(Tracked::new(k))", "x.val", 1, "rust::Box<Tracked>(Tracked(k))", "x->val"),
 ("vecstr", "Vec<String>", "rust::Vec<rust::String>", "vec![text(k), text(k)]", "if x.len() == 2 { val_string(&x[0]) } else { -2 }", 0, "rust::Vec<rust::String>{rust::String(ctext(k)), rust::String(ctext(k))}", "x.size() == 2 ? cpos(std::string(x[1])) : -2"),
 ("one", "One", "One", "One { b: Box::new(RObj::new(k)) }", "x.b.val", 1, "One{mkrobj(k)}", "rval(*x.b)"),
 ("onet", "OneT", "OneT", "OneT { t: Tracked::new(k) }", "x.t.val", 1, "OneT{Tracked(k)}", "x.t.val"),
 ("nest", "Nest", "Nest", "Nest { t: Tracked::new(k), n: k as u8, x: mk_sh(k), y: [text(k), text(k)], o: One { b: Box::new(RObj::new(k)) } }", "if x.n as i32 == x.t.val && val_sh(&x.x) == x.t.val && x.y[0] == x.y[1] && x.o.b.val == x.t.val { val_string(&x.y[1]) } else { -2 }", 5, "mknest(k)", "x.n == x.t.val && shval(x.x) == x.t.val && rval(*x.o.b) == x.t.val ? cpos(std::string(x.y[1])) : -2"),
]
CXX = '''        fn put_@(i: usize, x: T);
        fn take_@(i: usize) -> T;
        fn try_put_@(i: usize, x: T, mode: i32) -> Result<()>;
        fn try_take_@(i: usize, mode: i32) -> Result<T>;
        fn two_@(x: T, y: T, mode: i32) -> Result<T>;
        fn three_@(a: u8, x: T, b: String, y: T, c: &str) -> T;
        fn cb_@(f: fn(T) -> T, x: T) -> T;
        fn cb2_@(f: fn(T, T) -> T, x: T, y: T) -> T;
        fn repl_@(i: usize, x: &mut T);
        fn deep_@(x: T, d: i32, mode: i32) -> Result<T>;
        fn cnew_@(i: usize, k: i32);
        fn cdrop_@(i: usize);
        fn cval_@(i: usize) -> i32;
        fn hput_@(self: &Holder, i: usize, x: T, mode: i32) -> Result<()>;
        fn htake_@(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<T>;
        fn c_rput_@(i: usize, j: usize);
        fn c_rtake_@(i: usize, j: usize);
        fn c_rignore_@(j: usize);
        fn c_rtry_put_@(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_@(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_@(mode: i32) -> bool;
        fn c_rthree_@();
        fn c_rrepl_@(i: usize, j: usize);
        fn c_rdeep_@(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_@(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_@(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
'''
RUST = '''        fn rput_@(j: usize, x: T);
        fn rtake_@(j: usize) -> T;
        fn rtry_put_@(j: usize, x: T, mode: i32) -> Result<()>;
        fn rtry_take_@(j: usize, mode: i32) -> Result<T>;
        fn rtwo_@(x: T, y: T, mode: i32) -> Result<T>;
        fn rthree_@(a: u8, x: T, b: String, y: T, c: &str) -> T;
        fn rrepl_@(j: usize, x: &mut T);
        fn rdeep_@(x: T, d: i32, mode: i32) -> Result<T>;
        fn rhput_@(self: &RHolder, j: usize, x: T, mode: i32) -> Result<()>;
        fn rhtake_@(self: &mut RHolder, j: usize, mode: i32) -> Result<T>;
'''
def sub(s, tag, t): 
    import re
    return re.sub(r"\bT\b", t.replace("\\", "\\\\"), s).replace("@", tag)
REF = {}
bridge_c = "".join(sub(CXX, k[0], k[1]) for k in K)
bridge_r = "".join(sub(RUST, k[0], k[1]) for k in K)
kinds = []
for tag, T, C, mk, val, units, cmk, cval in K:
    kinds.append(sub('''
fn mk_@(k: i32) -> T { %s }
fn val_@(x: &T) -> i32 { %s }
pub mod k_@ {
    use super::*;
    pub static mut R: [Option<T>; 2] = [const { None }; 2];
    fn f1(x: T) -> T { x }
    fn f2(x: T, y: T) -> T { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_@(0); ffi::cdrop_@(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_@(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_@(i, k); true }
                CDrop(i) => { ffi::cdrop_@(i); true }
                Put(i, j) => { ffi::put_@(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_@(i)); true }
                TryPut(i, j, mode) => ffi::try_put_@(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_@(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_@(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_@(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_@(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_@(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_@(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_@(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_@(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_@(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_@(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_@(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_@(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_@(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_@(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_@(mode),
                CRThree => { ffi::c_rthree_@(); true }
                CRRepl(i, j) => { ffi::c_rrepl_@(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_@(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_@(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_@(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_@(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_@(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * %d;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_@(j: usize) -> &'static mut Option<T> { unsafe { &mut (*(&raw mut k_@::R))[j] } }
fn rput_@(j: usize, x: T) { *slot_@(j) = Some(x); }
fn rtake_@(j: usize) -> T { slot_@(j).take().unwrap() }
fn rtry_put_@(j: usize, x: T, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_@(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_@(j: usize, mode: i32) -> Result<T, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_@(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_@(x: T, y: T, mode: i32) -> Result<T, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_@(a: u8, x: T, b: String, y: T, c: &str) -> T { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_@(j: usize, x: &mut T) { std::mem::swap(slot_@(j).as_mut().unwrap(), x); }
fn rdeep_@(x: T, d: i32, mode: i32) -> Result<T, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_@(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_@(&self, j: usize, x: T, mode: i32) -> Result<(), E> { rtry_put_@(j, x, mode) }
    fn rhtake_@(&mut self, j: usize, mode: i32) -> Result<T, E> { self.0 += 1; rtry_take_@(j, mode) }
}
''' % (mk, val, units), tag, T))
RS = r'''//! Generated by gen_c10.py.
//! C10: values moved across calls against a model of which slot owns what.
use crate::engine::{rust_system, System};
use crate::ensure;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr};
use std::pin::Pin;
pub use ffi::{Base, CObj, Nest, One, OneT, Sh};
const TEXTS: [&str; 4] = ["", "one", "a text longer than any small string buffer", "\u{1f980}"];
fn text(k: i32) -> String { TEXTS[k as usize].to_owned() }
pub struct RObj { val: i32, id: u64 }
impl RObj { fn new(k: i32) -> Self { RObj { val: k, id: unsafe { vk10_new() } } } }
impl Drop for RObj { fn drop(&mut self) { unsafe { vk10_drop(self.id) } } }
#[repr(C)]
pub struct Tracked { val: i32, pad: i32, id: u64 }
impl Tracked { fn new(k: i32) -> Self { Tracked { val: k, pad: 0, id: unsafe { vk10_new() } } } }
impl Drop for Tracked { fn drop(&mut self) { unsafe { vk10_drop(self.id) } } }
unsafe impl cxx::ExternType for Tracked {
    type Id = cxx::type_id!("c10::Tracked");
    type Kind = cxx::kind::Trivial;
}
unsafe extern "C" {
    fn vk10_new() -> u64;
    fn vk10_drop(id: u64);
}
pub struct E(RObj, String);
impl E { fn new() -> Self { E(RObj::new(7), text(2)) } }
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.1) } }
pub struct RHolder(i32);
#[cxx::bridge(namespace = "c10")]
mod ffi {
    struct Sh { b: Box<RObj>, u: UniquePtr<CObj>, s: String, v: Vec<u8>, p: SharedPtr<CObj> }
    struct One { b: Box<RObj> }
    struct OneT { t: Tracked }
    struct Nest { t: Tracked, n: u8, x: Sh, y: [String; 2], o: One }
    unsafe extern "C++" {
        include!("rt/cc/c10.hpp");
        type CObj;
        type Base;
        type Tracked = crate::c10::Tracked;
        type Holder;
        fn val(self: &CObj) -> i32;
        fn bval(self: &Base) -> i32;
        fn mkcobj(k: i32) -> UniquePtr<CObj>;
        fn mkbase(k: i32) -> UniquePtr<Base>;
        fn mkshared(k: i32) -> SharedPtr<CObj>;
        fn mkustring(s: &CxxString) -> UniquePtr<CxxString>;
        fn mkuvec(k: i32) -> UniquePtr<CxxVector<CObj>>;
        unsafe fn holder() -> *mut Holder;
        fn live() -> i64;
        fn bad() -> bool;
        fn unpack(x: Sh) -> Box<RObj>;
@BC@    }
    extern "Rust" {
        type RObj;
        type RHolder;
        fn mkrobj(k: i32) -> Box<RObj>;
        fn mkvec(k: i32) -> Vec<RObj>;
        fn rval(x: &RObj) -> i32;
@BR@    }
    impl Box<Tracked> {}
    impl Vec<Tracked> {}
}
fn mkrobj(k: i32) -> Box<RObj> { Box::new(RObj::new(k)) }
fn mkvec(k: i32) -> Vec<RObj> { vec![RObj::new(k), RObj::new(k)] }
fn rval(x: &RObj) -> i32 { x.val }
#[derive(Clone, Copy, Debug)]
pub enum Op {
    RNew(usize, i32), RDrop(usize), CNew(usize, i32), CDrop(usize), Put(usize, usize), Take(usize, usize), TryPut(usize, usize, i32), TryTake(usize, usize, i32), HPut(usize, usize, i32), HTake(usize, usize, i32),
    Two(i32), Three, Cb(usize), Cb2, Repl(usize, usize), Deep(usize, i32, i32), CRPut(usize, usize), CRTake(usize, usize), CRIgnore(usize), CRTryPut(usize, usize, i32), CRTryTake(usize, usize, i32), CRTwo(i32), CRThree, CRRepl(usize, usize), CRDeep(usize, i32, i32),
    CRHPut(usize, usize, i32), CRHTake(usize, usize, i32),
}
#[derive(Default, Clone)]
pub struct M { r: [Option<i32>; 2], c: [Option<i32>; 2] }
fn enabled(o: Op, m: &M) -> bool {
    use Op::*;
    match o {
        RNew(..) | CNew(..) => true,
        RDrop(j) | Cb(j) | Deep(j, ..) | CRIgnore(j) => m.r[j].is_some(),
        CDrop(i) | CRDeep(i, ..) => m.c[i].is_some(),
        Put(_, j) | TryPut(_, j, _) | HPut(_, j, _) => m.r[j].is_some(),
        Take(i, _) | TryTake(i, ..) | HTake(i, ..) => m.c[i].is_some(),
        CRPut(i, _) | CRTryPut(i, ..) | CRHPut(i, ..) => m.c[i].is_some(),
        CRTake(_, j) | CRTryTake(_, j, _) | CRHTake(_, j, _) => m.r[j].is_some(),
        Two(_) | Three | Cb2 => m.r[0].is_some() && m.r[1].is_some(),
        CRTwo(_) | CRThree => m.c[0].is_some() && m.c[1].is_some(),
        Repl(i, j) | CRRepl(i, j) => m.c[i].is_some() && m.r[j].is_some(),
    }
}
/// Applies `o` to the model; the result is whether the call succeeds.
fn model(o: Op, m: &mut M) -> bool {
    use Op::*;
    match o {
        RNew(j, k) => m.r[j] = Some(k),
        RDrop(j) | CRIgnore(j) => m.r[j] = None,
        CNew(i, k) => m.c[i] = Some(k),
        CDrop(i) => m.c[i] = None,
        Put(i, j) => m.c[i] = m.r[j].take(),
        Take(i, j) => m.r[j] = m.c[i].take(),
        TryPut(i, j, mode) | HPut(i, j, mode) => { let x = m.r[j].take(); if mode != 1 { m.c[i] = x; } return mode == 0; }
        TryTake(i, j, mode) | HTake(i, j, mode) => { if mode != 1 { let x = m.c[i].take(); if mode == 0 { m.r[j] = x; } } return mode == 0; }
        Two(mode) => { let (x, y) = (m.r[0].take(), m.r[1].take()); match mode { 0 => m.r[0] = x, 3 => m.r[0] = y, _ => return false } }
        Three => { m.r[0] = None; }
        Cb(_) => {}
        Cb2 => { m.r[0] = m.r[1].take(); }
        Repl(i, j) | CRRepl(i, j) => { let x = m.c[i]; m.c[i] = m.r[j]; m.r[j] = x; }
        Deep(j, _, mode) => { if mode != 0 { m.r[j] = None; return false; } }
        CRPut(i, j) => m.r[j] = m.c[i].take(),
        CRTake(i, j) => m.c[i] = m.r[j].take(),
        CRTryPut(i, j, mode) | CRHPut(i, j, mode) => { let x = m.c[i].take(); if mode != 1 { m.r[j] = x; } return mode == 0; }
        CRTryTake(i, j, mode) | CRHTake(i, j, mode) => { if mode != 1 { let x = m.r[j].take(); if mode == 0 { m.c[i] = x; } } return mode == 0; }
        CRTwo(mode) => { let (x, y) = (m.c[0].take(), m.c[1].take()); match mode { 0 => m.c[0] = x, 3 => m.c[0] = y, _ => return false } }
        CRThree => { m.c[0] = None; }
        CRDeep(i, _, mode) => { if mode != 0 { m.c[i] = None; return false; } }
    }
    true
}
fn ops() -> Vec<Op> {
    use Op::*;
    let mut v = vec![];
    // slot 1 only takes part where two values meet
    v.extend([RNew(0, 1), RNew(0, 2), RNew(1, 3), RDrop(0), RDrop(1), CNew(0, 1), CNew(0, 2), CNew(1, 3), CDrop(0), CDrop(1)]);
    for (i, j) in [(0, 0), (0, 1), (1, 0)] {
        v.extend([Put(i, j), Take(i, j), CRPut(i, j), CRTake(i, j), Repl(i, j), CRRepl(i, j)]);
    }
    for mode in 0..3 {
        v.extend([TryPut(0, 0, mode), TryTake(0, 0, mode), HPut(0, 0, mode), HTake(0, 0, mode), CRTryPut(0, 0, mode), CRTryTake(0, 0, mode), CRHPut(0, 0, mode), CRHTake(0, 0, mode)]);
    }
    v.extend([Two(0), Two(1), Two(2), Two(3), Three, Cb(0), Cb2, CRTwo(0), CRTwo(1), CRTwo(3), CRThree, CRIgnore(0)]);
    for d in 1..4 {
        for mode in 0..2 {
            v.extend([Deep(0, d, mode), CRDeep(0, d, mode)]);
        }
    }
    v
}
@KINDS@
// Taking a struct apart and putting it together again, in both languages.
fn repack(all: &[u8], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    let r = (|| {
        let mut x = mk_sh(2);
        for &o in t {
            x = match all[o as usize] {
                0 => { let b = ffi::unpack(x); Sh { b, u: ffi::mkcobj(2), s: text(2), v: vec![2; 3], p: ffi::mkshared(2) } }
                1 => { let Sh { b, u, s, v, p } = x; drop(u); Sh { b, u: ffi::mkcobj(2), s, v, p } }
                2 => { let Sh { b, u, s, v, p } = x; Sh { b, u, s: s.clone(), v: v.clone(), p: p.clone() } }
                3 => { let v = ffi::two_sh(x, mk_sh(1), 0).map_err(|e| e.to_string())?; v }
                _ => { let Sh { b, u, s, v, p } = x; ffi::put_box(0, b); ffi::put_unique(0, u); ffi::put_string(0, s); ffi::put_shared(0, p); Sh { b: ffi::take_box(0), u: ffi::take_unique(0), s: ffi::take_string(0), v, p: ffi::take_shared(0) } }
            };
            ensure!(val_sh(&x) == 2);
            ensure!(ffi::live() == 3, "{} objects are alive, expected 3", ffi::live());
        }
        Ok(true)
    })();
    ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
    ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
    key.extend(t.iter().map(|x| *x as u8));
    r
}
pub fn systems() -> Vec<System> {
    let mut v = vec![rust_system("own-repack", ["unpack in C++", "replace field", "clone fields", "through C++", "field by field"].map(String::from).to_vec(), |t, k| repack(&[0, 1, 2, 3, 4], t, k))];
@SYS@
    v
}
'''
HPP = r'''// Generated by gen_c10.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
extern "C" std::uint64_t vk10_new();
extern "C" void vk10_drop(std::uint64_t);
extern "C" bool vk10_alive(std::uint64_t);
namespace c10 {
struct Sh; struct One; struct OneT; struct Nest; struct RObj; struct RHolder;
class CObj {
  std::uint64_t id; std::int32_t v;
public:
  CObj(std::int32_t k) : id(vk10_new()), v(k) {}
  CObj(const CObj &o) : id(vk10_new()), v(o.val()) {}
  CObj &operator=(const CObj &) = delete;
  ~CObj() { vk10_drop(id); }
  std::int32_t val() const { return vk10_alive(id) ? v : -3; }
};
struct Base { virtual ~Base() {} virtual std::int32_t bval() const = 0; };
struct Derived : Base { std::string pad = "some padding in front of the object"; CObj o; Derived(std::int32_t k) : o(k) {} std::int32_t bval() const override { return o.val(); } };
struct Tracked {
  using IsRelocatable = std::true_type;
  std::int32_t val, pad = 0; std::uint64_t id;
  explicit Tracked(std::int32_t k) : val(k), id(vk10_new()) {}
  Tracked(Tracked &&o) noexcept : val(o.val), id(vk10_new()) { if (!vk10_alive(o.id)) val = -3; }
  Tracked &operator=(Tracked &&o) noexcept { val = o.val; return *this; }
  ~Tracked() { vk10_drop(id); }
};
struct Holder {
@H@};
Holder *holder();
std::unique_ptr<CObj> mkcobj(std::int32_t k);
std::unique_ptr<Base> mkbase(std::int32_t k);
std::shared_ptr<CObj> mkshared(std::int32_t k);
std::unique_ptr<std::string> mkustring(const std::string &s);
std::unique_ptr<std::vector<CObj>> mkuvec(std::int32_t k);
std::int64_t live();
bool bad();
rust::Box<RObj> unpack(Sh x);
@D@} // namespace c10
'''
CC = r'''// Generated by gen_c10.py.
#include "rt/src/c10.rs.h"
#include <optional>
#include <stdexcept>
#include <unordered_set>
static std::vector<bool> alive; // by id
static std::int64_t nlive;
static bool isbad;
extern "C" std::uint64_t vk10_new() { if (nlive == 0) alive.clear(); ++nlive; alive.push_back(true); return alive.size() * 2654435761u; }
static std::uint64_t idx(std::uint64_t id) { std::uint64_t n = id / 2654435761u; return id % 2654435761u == 0 && n >= 1 && n <= alive.size() ? n - 1 : ~0ull; }
extern "C" bool vk10_alive(std::uint64_t id) { auto n = idx(id); if (n == ~0ull || !alive[n]) { isbad = true; return false; } return true; }
extern "C" void vk10_drop(std::uint64_t id) { if (vk10_alive(id)) { alive[idx(id)] = false; --nlive; } }
namespace c10 {
// The exception owns an object too.
struct Ex : std::exception { CObj o{7}; std::string m; explicit Ex(std::int32_t mode) : m(mode == 2 ? "a message that is not \xff UTF-8" : "a message that is longer than a small string") {} const char *what() const noexcept override { return m.c_str(); } };
std::int64_t live() { return nlive; }
bool bad() { bool b = isbad; isbad = false; return b; }
static Holder the_holder;
Holder *holder() { return &the_holder; }
std::unique_ptr<CObj> mkcobj(std::int32_t k) { return std::make_unique<CObj>(k); }
std::unique_ptr<Base> mkbase(std::int32_t k) { return std::make_unique<Derived>(k); }
std::shared_ptr<CObj> mkshared(std::int32_t k) { return std::make_shared<CObj>(k); }
std::unique_ptr<std::string> mkustring(const std::string &s) { return std::make_unique<std::string>(s); }
std::unique_ptr<std::vector<CObj>> mkuvec(std::int32_t k) { auto v = std::make_unique<std::vector<CObj>>(); v->reserve(2); v->emplace_back(k); v->emplace_back(k); return v; }
rust::Box<RObj> unpack(Sh x) { return std::move(x.b); }
static const char *const texts[] = {"", "one", "a text longer than any small string buffer", "\xf0\x9f\xa6\x80"};
static std::string ctext(std::int32_t k) { return texts[k]; }
static std::int32_t cpos(const std::string &s) { for (int i = 0; i < 4; ++i) if (s == texts[i]) return i; return -2; }
static Sh mksh(std::int32_t k) { rust::Vec<std::uint8_t> v; for (int i = 0; i < 3; ++i) v.push_back(k); return Sh{mkrobj(k), mkcobj(k), rust::String(ctext(k)), std::move(v), mkshared(k)}; }
static std::int32_t shval(const Sh &x) { std::int32_t k = rval(*x.b); return x.u->val() == k && x.p->val() == k && std::string(x.s) == ctext(k) && x.v.size() == 3 && x.v[2] == k ? k : -2; }
static rust::Vec<Sh> mkvecsh(std::int32_t k) { rust::Vec<Sh> v; v.push_back(mksh(k)); v.push_back(mksh(k)); return v; }
static rust::Vec<Tracked> mkvectr(std::int32_t k) { rust::Vec<Tracked> v; v.push_back(Tracked(k)); return v; }
static Nest mknest(std::int32_t k) { return Nest{Tracked(k), std::uint8_t(k), mksh(k), {{rust::String(ctext(k)), rust::String(ctext(k))}}, One{mkrobj(k)}}; }
@C@} // namespace c10
'''
decl, hdecl, defs = [], [], []
D = '''void put_@(std::size_t i, T x);
T take_@(std::size_t i);
void try_put_@(std::size_t i, T x, std::int32_t mode);
T try_take_@(std::size_t i, std::int32_t mode);
T two_@(T x, T y, std::int32_t mode);
T three_@(std::uint8_t a, T x, rust::String b, T y, rust::Str c);
T cb_@(rust::Fn<T(T)> f, T x);
T cb2_@(rust::Fn<T(T, T)> f, T x, T y);
void repl_@(std::size_t i, T &x);
T deep_@(T x, std::int32_t d, std::int32_t mode);
void cnew_@(std::size_t i, std::int32_t k);
void cdrop_@(std::size_t i);
std::int32_t cval_@(std::size_t i);
void c_rput_@(std::size_t i, std::size_t j);
void c_rtake_@(std::size_t i, std::size_t j);
void c_rignore_@(std::size_t j);
bool c_rtry_put_@(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_@(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_@(std::int32_t mode);
void c_rthree_@();
void c_rrepl_@(std::size_t i, std::size_t j);
bool c_rdeep_@(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_@(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_@(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
'''
HD = '''  void hput_@(std::size_t i, T x, std::int32_t mode) const;
  T htake_@(std::size_t i, std::int32_t mode);
'''
C = '''static std::optional<T> s_@[2];
static T pop_@(std::size_t i) { T x = std::move(*s_@[i]); s_@[i].reset(); return x; }
void put_@(std::size_t i, T x) { s_@[i].reset(); s_@[i].emplace(std::move(x)); }
T take_@(std::size_t i) { return pop_@(i); }
void try_put_@(std::size_t i, T x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_@(i, std::move(x)); if (mode == 2) throw Ex(mode); }
T try_take_@(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); T x = pop_@(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_@(std::size_t i, T x, std::int32_t mode) const { try_put_@(i, std::move(x), mode); }
T Holder::htake_@(std::size_t i, std::int32_t mode) { return try_take_@(i, mode); }
T two_@(T x, T y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { T z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
T three_@(std::uint8_t a, T x, rust::String b, T y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); T z = std::move(x); (void)z; return y; }
T cb_@(rust::Fn<T(T)> f, T x) { return f(f(std::move(x))); }
T cb2_@(rust::Fn<T(T, T)> f, T x, T y) { return f(std::move(x), std::move(y)); }
void repl_@(std::size_t i, T &x) { T t = std::move(x); x = pop_@(i); s_@[i].emplace(std::move(t)); }
T deep_@(T x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_@(std::move(x), d - 1, mode); }
void cnew_@(std::size_t i, std::int32_t k) { s_@[i].reset(); T x MK; s_@[i].emplace(std::move(x)); }
void cdrop_@(std::size_t i) { s_@[i].reset(); }
static std::int32_t v_@(const T &x) { return VAL; }
std::int32_t cval_@(std::size_t i) { return s_@[i] ? v_@(*s_@[i]) : -1; }
void c_rput_@(std::size_t i, std::size_t j) { rput_@(j, pop_@(i)); }
void c_rtake_@(std::size_t i, std::size_t j) { s_@[i].reset(); s_@[i].emplace(rtake_@(j)); }
void c_rignore_@(std::size_t j) { rtake_@(j); }
bool c_rtry_put_@(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_@(j, pop_@(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_@(std::size_t i, std::size_t j, std::int32_t mode) { try { T x = rtry_take_@(j, mode); s_@[i].reset(); s_@[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_@(std::int32_t mode) { try { T x = rtwo_@(pop_@(0), pop_@(1), mode); s_@[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_@() { s_@[1].emplace(rthree_@(1, pop_@(0), rust::String(ctext(2)), pop_@(1), rust::Str("z"))); }
void c_rrepl_@(std::size_t i, std::size_t j) { rrepl_@(j, *s_@[i]); }
bool c_rdeep_@(std::size_t i, std::int32_t d, std::int32_t mode) { try { T x = rdeep_@(pop_@(i), d, mode); s_@[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_@(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_@(j, pop_@(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_@(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { T x = h.rhtake_@(j, mode); s_@[i].reset(); s_@[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
'''
for tag, T, ct, mk, val, units, cmk, cval in K:
    decl.append(sub(D, tag, ct)); hdecl.append(sub(HD, tag, ct))
    defs.append(sub(C, tag, ct).replace("T x MK", "T x MK").replace(" x MK;", (" x" + cmk if cmk.startswith("{{") else " x = " + cmk) + ";").replace("VAL", cval))
w = lambda p, s: open(os.path.join(HERE, p), "w").write(s)
sysl = "\n".join('    v.push(rust_system("own-%s", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_%s::history(&all, t, k) }));' % (k[0], k[0]) for k in K)
w("src/c10.rs", RS.replace("@BC@", bridge_c).replace("@BR@", bridge_r).replace("@KINDS@", "".join(kinds)).replace("@SYS@", sysl))
w("cc/c10.hpp", HPP.replace("@H@", "".join(hdecl)).replace("@D@", "".join(decl)))
w("cc/c10.cc", CC.replace("@C@", "".join(defs)))
