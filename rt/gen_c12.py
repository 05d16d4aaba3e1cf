#!/usr/bin/env python3
"""Generates src/c12.rs and cc/c12.{hpp,cc}: every kind of entry point from C++ into Rust."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
RET = [("unit", None, "void", ""), ("u8", "u8", "", "7"), ("f64", "f64", "", "1.5"), ("bool", "bool", "", "true"), ("string", "String", "", "String::from(\"ok\")"), ("str", "&str", "", "\"ok\""),
       ("slice", "&[u8]", "", "b\"ok\""), ("box", "Box<P>", "", "Box::new(P(0))"), ("vec", "Vec<u8>", "", "vec![1]"), ("vecs", "Vec<String>", "", "vec![String::new()]"), ("sh", "Sh", "", "Sh { b: Box::new(P(0)), n: 1 }"),
       ("small", "Small", "", "Small { a: 1, b: 2 }"), ("en", "En", "", "En::B"), ("up", "UniquePtr<CObj>", "", "UniquePtr::null()"), ("sp", "SharedPtr<CObj>", "", "SharedPtr::null()"),
       ("refp", "&P", "", "Box::leak(Box::new(P(0)))"), ("mutp", "&mut P", "", "Box::leak(Box::new(P(0)))"), ("arr", "[u8; 3]", "", "[1, 2, 3]"), ("cs", "UniquePtr<CxxString>", "", "UniquePtr::null()")]
ARG = [("a_u8", "u8", "1"), ("a_string", "String", "rust::String(\"x\")"), ("a_str", "&str", "rust::Str(\"x\")"), ("a_box", "Box<P>", "mkp(0)"), ("a_vec", "Vec<u8>", "rust::Vec<std::uint8_t>{1, 2}"), ("a_sh", "Sh", "Sh{mkp(0), 1}"),
       ("a_up", "UniquePtr<CObj>", "std::make_unique<CObj>()"), ("a_ref", "&P", "*keep"), ("a_mut", "&mut P", "*keep"), ("a_sl", "&[u8]", "rust::Slice<const std::uint8_t>()"), ("a_arr", "[u8; 3]", "std::array<std::uint8_t, 3>{{1, 2, 3}}"), ("a_cs", "&CxxString", "str_"), ("a_vp", "Vec<P>", "mkv()")]
rb, rs, ent = [], [], []
for n, t, _, v in RET:
    arr = " -> " + t if t else ""
    anchor = {"str": "z: &u8", "slice": "z: &u8", "refp": "z: &u8", "mutp": "z: &mut u8"}.get(n, "")
    za = "z_" if anchor else ""
    rb += ["fn ret_%s(%s)%s;" % (n, anchor, arr), "fn try_%s(%s) -> Result<%s>;" % (n, anchor, t or "()"), "fn err_%s(%s) -> Result<%s>;" % (n, anchor, t or "()")]
    rs += ["fn ret_%s(%s)%s { boom(); %s }" % (n, anchor, arr, v),
           "fn try_%s(%s) -> Result<%s, String> { boom(); Ok(%s) }" % (n, anchor, t or "()", v or "()"),
           "fn err_%s(%s) -> Result<%s, BadDisplay> { Err(BadDisplay) }" % (n, anchor, t or "()")]
    ent += [("returning " + n, "(void)ret_%s(%s);" % (n, za)), ("Result " + n, "(void)try_%s(%s);" % (n, za)), ("Display of Err, " + n, "try { (void)err_%s(%s); } catch (const rust::Error &) {}" % (n, za))]
for n, t, v in ARG:
    rb += ["fn %s(x: %s);" % (n, t), "fn t%s(x: %s) -> Result<String>;" % (n, t)]
    rs += ["fn %s(x: %s) { boom(); }" % (n, t), "fn t%s(x: %s) -> Result<String, String> { boom(); Ok(String::new()) }" % (n, t)]
    ent += [("argument " + n, "%s(%s);" % (n, v)), ("Result, argument " + n, "t%s(%s);" % (n, v))]
for n, recv, obj in [("cref", "&P", "keep->"), ("cmut", "&mut P", "keep->"), ("pin", "Pin<&mut P>", "keep->"), ("sref", "&Sh", "sh."), ("smut", "&mut Sh", "sh.")]:
    cls = "Sh" if "Sh" in recv else "P"
    slf = {"&P": "&self", "&mut P": "&mut self", "Pin<&mut P>": "self: Pin<&mut Self>", "&Sh": "&self", "&mut Sh": "&mut self"}[recv]
    rb += ["fn m_%s(self: %s);" % (n, recv), "fn tm_%s(self: %s, x: String) -> Result<Sh>;" % (n, recv)]
    rs += ["impl %s { fn m_%s(%s) { boom(); } fn tm_%s(%s, x: String) -> Result<Sh, String> { boom(); Ok(Sh { b: Box::new(P(0)), n: 1 }) } }" % (cls, n, slf, n, slf)]
    ent += [("method " + recv, "%sm_%s();" % (obj, n)), ("Result method " + recv, "(void)%stm_%s(rust::String(\"q\"));" % (obj, n))]
for op in ["==", "!=", "<", "<=", ">", ">="]:
    ent.append(("operator" + op, "(void)(sh %s sh2);" % op))
    ent.append(("opaque-by-method operator" + op, "(void)(so %s so2);" % op))
ent += [("std::hash", "(void)std::hash<Sh>()(sh);"),
        ("Box destructor", "{ auto b = mkp(1); }"), ("Box move assignment", "{ auto b = mkp(1); b = mkp(0); }"),
        ("Box<shared> destructor", "{ rust::Box<Sh> b(Sh{mkp(1), 1}); }"), ("struct with Box destructor", "{ Sh s{mkp(1), 1}; }"),
        ("Vec destructor", "{ auto v = mkv1(); }"), ("Vec clear", "{ auto v = mkv1(); v.clear(); std::_Exit(v.size() ? 46 : 47); }"), ("Vec truncate", "{ auto v = mkv1(); v.truncate(1); std::_Exit(47); }"),
        ("Vec move assignment", "{ auto v = mkv1(); v = rust::Vec<P>(); }"), ("Vec of shared destructor", "{ rust::Vec<Sh> v; v.push_back(Sh{mkp(1), 1}); }"),
        ("argument drop: Box", "drop_box(mkp(1));"), ("argument drop: struct", "drop_sh(Sh{mkp(1), 1});"), ("argument drop: Vec", "drop_vec(mkv1());"), ("Err drop", "try { err_drop(); } catch (const rust::Error &) {}"),
        ("fn pointer", "with_fn(1);"), ("fn pointer owned", "with_fn(2);"), ("fn pointer str", "with_fn(3);"), ("fn pointer struct", "with_fn(4);"), ("fn pointer unit", "with_fn(5);"),
        ("nested", "deep(3);"), ("nested Result", "deep_try(3);")]
# entries whose panic is not boom(): capacity overflow in the built-in shims
BUILTIN = [("String reserve", "rust::String s(\"abc\"); s.reserve(SIZE_MAX / 2 + 5);"), ("Vec<u8> reserve", "rust::Vec<std::uint8_t> v; v.push_back(1); v.reserve(SIZE_MAX);"),
           ("Vec<String> reserve", "rust::Vec<rust::String> v; v.reserve(SIZE_MAX / 3);"), ("Vec<P> reserve", "auto v = mkv(); v.reserve(SIZE_MAX / 2);"), ("Vec<Sh> reserve", "rust::Vec<Sh> v; v.reserve(SIZE_MAX / 2);"),
           ("Vec<f64> reserve", "rust::Vec<double> v; v.reserve(SIZE_MAX / 4);")]

RS = r'''// Generated by gen_c12.py.
use core::pin::Pin;
use cxx::{CxxString, SharedPtr, UniquePtr};
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
pub use ffi::*;
static MODE: AtomicI32 = AtomicI32::new(0);
pub struct P(pub i32);
impl Drop for P { fn drop(&mut self) { if self.0 == 1 { boom() } } }
impl PartialEq for P { fn eq(&self, _: &P) -> bool { boom(); true } }
impl Eq for P {}
impl PartialOrd for P { fn partial_cmp(&self, _: &P) -> Option<std::cmp::Ordering> { boom(); Some(std::cmp::Ordering::Equal) } }
impl std::hash::Hash for P { fn hash<H: std::hash::Hasher>(&self, _: &mut H) { boom() } }
struct BadDisplay;
impl std::fmt::Display for BadDisplay { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { boom(); f.write_str("x") } }
struct BadDrop;
impl Drop for BadDrop { fn drop(&mut self) { boom() } }
impl std::fmt::Display for BadDrop { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("x") } }
struct PanicOnDrop;
impl Drop for PanicOnDrop { fn drop(&mut self) { panic!("second panic") } }
fn kaboom(m: i32) {
    match m {
        1 => panic!("plain"),
        2 => panic!("formatted {}", m),
        3 => std::panic::panic_any(m),
        4 => std::panic::resume_unwind(Box::new(5u64)),
        5 => { let v: Vec<i32> = Vec::new(); let i = std::hint::black_box(3); let _ = v[i]; }
        6 => { let o: Option<i32> = std::hint::black_box(None); o.unwrap(); }
        7 => { let _g = PanicOnDrop; panic!("first panic") }
        8 => { let e = std::panic::catch_unwind(|| kaboom(1)).unwrap_err(); std::panic::resume_unwind(e) }
        9 => { let z = std::hint::black_box(0); std::hint::black_box(1 / z); }
        _ => {}
    }
}
fn boom() {
    match MODE.load(SeqCst) {
        0 => {}
        10 => { assert!(std::panic::catch_unwind(|| kaboom(1)).is_err()); }
        11 => { assert!(std::panic::catch_unwind(|| kaboom(4)).is_err()); }
        m => kaboom(m),
    }
}
#[cxx::bridge(namespace = "c12")]
mod ffi {
    #[derive(PartialEq, Eq, PartialOrd, Hash)]
    struct Sh { b: Box<P>, n: u8 }
    #[derive(PartialEq, PartialOrd, Eq)]
    struct So { n: u8, b: Box<P> }
    struct Small { a: u8, b: u8 }
    enum En { A, B }
    impl Box<Sh> {}
    impl Vec<Sh> {}
    unsafe extern "C++" {
        include!("rt/cc/c12.hpp");
        type CObj;
        fn c_entry(e: usize, context: i32) -> i32;
        fn c_call_fn(f: fn(i32) -> i32);
        fn c_call_fn2(f: fn(Box<P>, Vec<u8>) -> String);
        fn c_call_fn3(f: fn(&str) -> bool);
        fn c_call_fn4(f: fn(Small, [u8; 3]) -> Sh);
        fn c_call_fn5(f: fn());
        fn c_deep(n: i32);
        fn c_deep_try(n: i32) -> Result<()>;
    }
    extern "Rust" {
        type P;
        fn mkp(x: i32) -> Box<P>;
        fn mkv() -> Vec<P>;
        fn mkv1() -> Vec<P>;
        fn with_fn(x: i32);
        fn deep(n: i32);
        fn deep_try(n: i32) -> Result<()>;
        fn drop_box(x: Box<P>);
        fn drop_sh(x: Sh);
        fn drop_vec(x: Vec<P>);
        fn err_drop() -> Result<()>;
@RB@
    }
}
fn mkp(x: i32) -> Box<P> { Box::new(P(x)) }
fn mkv() -> Vec<P> { vec![P(0), P(0)] }
fn mkv1() -> Vec<P> { vec![P(0), P(0), P(1)] }
fn drop_box(_x: Box<P>) {}
fn drop_sh(_x: Sh) {}
fn drop_vec(_x: Vec<P>) {}
fn err_drop() -> Result<(), BadDrop> { Err(BadDrop) }
fn with_fn(x: i32) {
    fn f1(x: i32) -> i32 { boom(); x }
    fn f2(_: Box<P>, _: Vec<u8>) -> String { boom(); String::new() }
    fn f3(_: &str) -> bool { boom(); true }
    fn f4(_: Small, _: [u8; 3]) -> Sh { boom(); Sh { b: Box::new(P(0)), n: 0 } }
    fn f5() { boom() }
    // a panic that got through C++ would be caught here
    let r = std::panic::catch_unwind(|| match x { 1 => ffi::c_call_fn(f1), 2 => ffi::c_call_fn2(f2), 3 => ffi::c_call_fn3(f3), 4 => ffi::c_call_fn4(f4), _ => ffi::c_call_fn5(f5) });
    if r.is_err() { unsafe { _exit(48) } }
}
unsafe extern "C" { fn _exit(c: i32) -> !; }
fn deep(n: i32) {
    if n == 0 { return boom(); }
    if std::panic::catch_unwind(|| ffi::c_deep(n - 1)).is_err() { unsafe { _exit(48) } }
}
fn deep_try(n: i32) -> Result<(), cxx::Exception> {
    if n == 0 { boom(); return Ok(()); }
    match std::panic::catch_unwind(|| ffi::c_deep_try(n - 1)) { Err(_) => unsafe { _exit(48) }, Ok(r) => r }
}
@RS@
static NAMES: &[&str] = &[@NAMES@];
const NBOOM: usize = @NBOOM@;
pub fn main() {
    // run ENTRY MODE CONTEXT | list
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" {
        for (i, n) in NAMES.iter().enumerate() { println!("{} {} {}", i, if i < NBOOM { 1 } else { 0 }, n); }
        return;
    }
    let n = |i: usize| a[i].parse::<i32>().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    // batch: all modes and contexts of one entry, each in a forked child
    unsafe extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn alarm(n: u32) -> u32; fn setrlimit(r: i32, l: *const u64) -> i32; }
    unsafe { setrlimit(4, [0u64, 0].as_ptr()); }
    let e = n(2) as usize;
    for m in 0..12 {
        if e >= NBOOM && m != 1 { continue; }
        for c in 0..8 {
            let p = unsafe { fork() };
            if p == 0 {
                unsafe { alarm(20); }
                MODE.store(m, SeqCst);
                let r = std::panic::catch_unwind(|| ffi::c_entry(e, c));
                unsafe { _exit(match r { Ok(x) => x, Err(_) => 48 }) }
            }
            let mut s = 0;
            unsafe { waitpid(p, &mut s, 0); }
            println!("{} {} {} {} {}", e, m, c, s & 0x7f, (s >> 8) & 0xff);
        }
    }
}
'''
HPP = r'''// Generated by gen_c12.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <memory>
#include <string>
namespace c12 {
struct P; struct Sh; struct Small;
struct CObj { int x = 0; };
std::int32_t c_entry(std::size_t e, std::int32_t context);
void c_call_fn(rust::Fn<std::int32_t(std::int32_t)> f);
void c_call_fn2(rust::Fn<rust::String(rust::Box<P>, rust::Vec<std::uint8_t>)> f);
void c_call_fn3(rust::Fn<bool(rust::Str)> f);
void c_call_fn4(rust::Fn<Sh(Small, std::array<std::uint8_t, 3>)> f);
void c_call_fn5(rust::Fn<void()> f);
void c_deep(std::int32_t n);
void c_deep_try(std::int32_t n);
} // namespace c12
'''
CC = r'''// Generated by gen_c12.py.
#include "rt/src/c12.rs.h"
#include <cstdlib>
#include <exception>
#include <stdexcept>
#include <thread>
#include <unistd.h>
namespace c12 {
// A C++ frame that notices being unwound.
struct Frame { bool armed = true; ~Frame() { if (armed) _exit(44); } };
template <class F> static auto framed(F f) { Frame fr; try { if constexpr (std::is_void_v<decltype(f())>) { f(); fr.armed = false; } else { auto x = f(); fr.armed = false; return x; } } catch (const rust::Error &) { fr.armed = false; throw; } catch (...) { _exit(42); } }
void c_call_fn(rust::Fn<std::int32_t(std::int32_t)> f) { framed([&] { f(1); }); }
void c_call_fn2(rust::Fn<rust::String(rust::Box<P>, rust::Vec<std::uint8_t>)> f) { framed([&] { f(mkp(0), rust::Vec<std::uint8_t>{1}); }); }
void c_call_fn3(rust::Fn<bool(rust::Str)> f) { framed([&] { f("x"); }); }
void c_call_fn4(rust::Fn<Sh(Small, std::array<std::uint8_t, 3>)> f) { framed([&] { f(Small{1, 2}, {{1, 2, 3}}); }); }
void c_call_fn5(rust::Fn<void()> f) { framed([&] { f(); }); }
void c_deep(std::int32_t n) { framed([&] { deep(n); }); }
void c_deep_try(std::int32_t n) { framed([&] { deep_try(n); }); }
static void entry(std::size_t e) {
  std::uint8_t z_ = 0; (void)z_;
  auto keep = mkp(0);
  Sh sh{mkp(0), 1}, sh2{mkp(0), 1};
  So so{1, mkp(0)}, so2{1, mkp(0)};
  std::string str_ = "x";
  framed([&] {
    switch (e) {
@CASES@
    default: _exit(49);
    }
  });
}
struct InDtor { std::size_t e; ~InDtor() { entry(e); } };
std::int32_t c_entry(std::size_t e, std::int32_t context) {
  std::set_terminate([] { _exit(45); });
  switch (context) {
  case 0: entry(e); break;
  case 1: { InDtor d{e}; break; }
  case 2: try { throw 1; } catch (int) { entry(e); } break;
  case 3: try { InDtor d{e}; throw std::runtime_error("x"); } catch (const std::exception &) {} break;
  case 4: { std::thread t([&] { entry(e); }); t.join(); break; }
  case 5: [&]() noexcept { entry(e); }(); break;
  case 6: entry(e); entry(e); break;
  case 7: try { try { entry(e); } catch (...) { throw; } } catch (...) { _exit(42); } break;
  }
  return 43;
}
} // namespace c12
'''
w = lambda p, s: open(os.path.join(HERE, p), "w").write(s)
al = ent + BUILTIN
w("src/c12.rs", RS.replace("@RB@", "\n".join("        " + x for x in rb)).replace("@RS@", "\n".join(rs)).replace("@NAMES@", ", ".join('"%s"' % n for n, _ in al)).replace("@NBOOM@", str(len(ent))))
w("cc/c12.hpp", HPP)
w("cc/c12.cc", CC.replace("@CASES@", "\n".join("    case %d: { %s break; }" % (i, c) for i, (_, c) in enumerate(al))))
