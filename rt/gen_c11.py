#!/usr/bin/env python3
"""Generates src/c11a.rs, src/c11b.rs and cc/c11{a,b}.{hpp,cc} (C11: errors)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
# tag, Rust type, C++ type, Rust value, Rust check of `x`, C++ value, C++ check of `x`, extra Rust argument
RET = [
 ("unit", "()", "void", "()", "true", "", "true", ""),
 ("u8", "u8", "std::uint8_t", "200", "x == 200", "200", "x == 200", ""),
 ("i128less", "i64", "std::int64_t", "i64::MIN", "x == i64::MIN", "INT64_MIN", "x == INT64_MIN", ""),
 ("f64", "f64", "double", "-0.5", "x == -0.5", "-0.5", "x == -0.5", ""),
 ("boolean", "bool", "bool", "true", "x", "true", "x", ""),
 ("string", "String", "rust::String", "\"a string\".to_owned()", "x == \"a string\"", "rust::String(\"a string\")", "x == \"a string\"", ""),
 ("str", "&'static str", "rust::Str", "\"a str\"", "x == \"a str\"", "rust::Str(\"a str\")", "x == \"a str\"", ""),
 ("slice", "&'static [u16]", "rust::Slice<const std::uint16_t>", "&[1, 2, 3]", "x == [1, 2, 3]", "rust::Slice<const std::uint16_t>(three, 3)", "x.size() == 3 && x[2] == 3", ""),
 ("boxed", "Box<RObj>", "rust::Box<RObj>", "Box::new(RObj(5))", "x.0 == 5", "mkrobj(5)", "rval(*x) == 5", ""),
 ("vecn", "Vec<u32>", "rust::Vec<std::uint32_t>", "vec![1, 2]", "x == [1, 2]", "rust::Vec<std::uint32_t>{1, 2}", "x.size() == 2 && x[1] == 2", ""),
 ("vecs", "Vec<String>", "rust::Vec<rust::String>", "vec![\"q\".to_owned()]", "x == [\"q\"]", "rust::Vec<rust::String>{rust::String(\"q\")}", "x.size() == 1 && x[0] == \"q\"", ""),
 ("sh", "Sh", "Sh", "Sh { s: \"f\".to_owned(), b: Box::new(RObj(6)), n: 9 }", "x.s == \"f\" && x.b.0 == 6 && x.n == 9", "Sh{rust::String(\"f\"), mkrobj(6), 9}", "x.s == \"f\" && rval(*x.b) == 6 && x.n == 9", ""),
 ("small", "Small", "Small", "Small { a: 1, b: 2 }", "x.a == 1 && x.b == 2", "Small{1, 2}", "x.a == 1 && x.b == 2", ""),
 ("en", "En", "En", "En::B", "x == En::B", "En::B", "x == En::B", ""),
 ("up", "UniquePtr<CObj>", "std::unique_ptr<CObj>", "mkcobj(7)", "x.cval() == 7", "std::make_unique<CObj>(7)", "x->cval() == 7", ""),
 ("upn", "UniquePtr<CObj>", "std::unique_ptr<CObj>", "UniquePtr::null()", "x.is_null()", "nullptr", "!x", ""),
 ("ups", "UniquePtr<CxxString>", "std::unique_ptr<std::string>", "mkstr()", "x.as_bytes() == b\"cxx\"", "mkstr()", "*x == \"cxx\"", ""),
 ("sp", "SharedPtr<CObj>", "std::shared_ptr<CObj>", "mkshared(8)", "x.cval() == 8", "std::make_shared<CObj>(8)", "x->cval() == 8", ""),
 ("arr", "[u16; 3]", "std::array<std::uint16_t, 3>", "[1, 2, 3]", "x == [1, 2, 3]", "{{1, 2, 3}}", "x[2] == 3", ""),
 ("arrs", "[String; 2]", "std::array<rust::String, 2>", "[\"a\".to_owned(), \"b\".to_owned()]", "x == [\"a\", \"b\"]", "{{rust::String(\"a\"), rust::String(\"b\")}}", "x[1] == \"b\"", ""),
 ("refr", "&'static RObj", "const RObj &", "&STATIC_ROBJ", "x.0 == 77", "static_robj()", "rval(x) == 77", ""),
 ("refc", "&'static CObj", "const CObj &", "unsafe { &*static_cobj() }", "x.cval() == 78", "*static_cobj()", "x.cval() == 78", ""),
 ("ptr", "*mut CObj", "CObj *", "static_cobj()", "unsafe { (*x).cval() == 78 }", "static_cobj()", "x->cval() == 78", ""),
]
RUST_A = r'''//! Generated by gen_c11.py.
//! C11: Result and exceptions under the default trycatch.
use crate::engine::{rust_system, System};
use crate::ensure;
use cxx::{CxxString, SharedPtr, UniquePtr};
use std::cell::{Cell, RefCell};
use std::fmt::{Display, Formatter, Write as _};
pub use ffi::{CObj, En, Sh, Small, mkcobj, mkshared, mkstr, static_cobj};
pub struct RObj(i32);
static STATIC_ROBJ: RObj = RObj(77);
fn static_robj() -> &'static RObj { &STATIC_ROBJ }
fn mkrobj(k: i32) -> Box<RObj> { Box::new(RObj(k)) }
fn rval(x: &RObj) -> i32 { x.0 }
#[cxx::bridge(namespace = "c11a")]
mod ffi {
    struct Sh { s: String, b: Box<RObj>, n: u8 }
    struct Small { a: u8, b: u8 }
    #[derive(Debug)]
    enum En { A, B }
    unsafe extern "C++" {
        include!("rt/cc/c11a.hpp");
        type CObj;
        fn cval(self: &CObj) -> i32;
        fn mkcobj(k: i32) -> UniquePtr<CObj>;
        fn mkshared(k: i32) -> SharedPtr<CObj>;
        fn mkstr() -> UniquePtr<CxxString>;
        fn static_cobj() -> *mut CObj;
        /// Throws an exception of the given kind.
        fn cthrow(kind: i32, msg: &[u8]) -> Result<()>;
        /// What C++ sees of an Err: 0 as expected, otherwise the failed step.
        fn csees(kind: i32, msg: &[u8]) -> i32;
        fn csees_other(kind: i32, msg: &str) -> i32;
        fn clevel(n: usize) -> Result<i32>;
        fn guards() -> i32;
        fn croot(out: &mut String) -> i32;
        fn clog() -> i32;
        fn wild(k: i32);
        fn wild_result(k: i32) -> Result<String>;
@BC@    }
    extern "Rust" {
        type RObj;
        fn mkrobj(k: i32) -> Box<RObj>;
        fn rval(x: &RObj) -> i32;
        fn static_robj() -> &'static RObj;
        fn rfail(kind: i32, msg: &[u8]) -> Result<()>;
        fn rfail_io(msg: &str) -> Result<String>;
        fn rfail_dyn(msg: &str) -> Result<Box<RObj>>;
        fn rfail_str(msg: &str) -> Result<&str>;
        fn rfail_fmt(msg: &str) -> Result<u8>;
        fn rfail_exc(msg: &str) -> Result<u8>;
        fn rlevel(n: usize) -> Result<i32>;
        fn action(n: usize) -> u8;
        fn rlog(n: i32);
@BR@    }
}
/// Writes its text one character at a time.
pub struct Chunked(String);
impl Display for Chunked { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { for c in self.0.chars() { f.write_char(c)?; } Ok(()) } }
fn lossy(m: &[u8]) -> String { String::from_utf8_lossy(m).into_owned() }
fn rfail(kind: i32, msg: &[u8]) -> Result<(), Chunked> { if kind == 0 { Ok(()) } else { Err(Chunked(lossy(msg))) } }
fn rfail_io(msg: &str) -> Result<String, std::io::Error> { Err(std::io::Error::new(std::io::ErrorKind::Other, msg.to_owned())) }
fn rfail_dyn(msg: &str) -> Result<Box<RObj>, Box<dyn std::error::Error>> { Err(msg.into()) }
fn rfail_str(msg: &str) -> Result<&str, std::borrow::Cow<'static, str>> { Err(msg.to_owned().into()) }
struct Padded(String);
impl Display for Padded { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { write!(f, "{:>6}|{:?}", self.0, 1) } }
fn rfail_fmt(msg: &str) -> Result<u8, Padded> { Err(Padded(msg.to_owned())) }
fn rfail_exc(msg: &str) -> Result<u8, cxx::Exception> { ffi::cthrow(1, msg.as_bytes()).map(|_| 0) }
@RS@
const MSGS: &[&[u8]] = &[b"", b"m", b"a message longer than any small string buffer", "\u{e9}\u{1f980}".as_bytes(), b"bad \xff\xc3 utf8 \xf0\x9f", b"nul\0inside", b"\0", b"\n\t\"'\\{}%s"];
fn want(msg: &[u8]) -> String { lossy(msg.split(|b| *b == 0).next().unwrap()) }
#[derive(Clone, Copy, Debug)]
enum ROp { COk, CThrow(i32, usize), ROk, RErr(usize) }
fn rops() -> Vec<ROp> {
    let mut v = vec![ROp::COk, ROp::ROk];
    for m in 0..MSGS.len() { v.push(ROp::RErr(m)); v.push(ROp::CThrow(1, m)); }
    for k in 2..@NK@ { v.push(ROp::CThrow(k, 4)); }
    v
}
fn ret_history(call: fn(i32, &[u8]) -> Result<bool, String>, cd: fn(i32, &[u8]) -> i32, all: &[ROp], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    for &o in t {
        match all[o as usize] {
            ROp::COk => ensure!(call(0, b"") == Ok(true), "Ok value of a C++ function differs: {:?}", call(0, b"")),
            ROp::CThrow(k, m) => { let r = call(k, MSGS[m]); ensure!(r == Err(kind_text(k, &want(MSGS[m]))), "C++ exception {} with message {:?} became {:?}", k, MSGS[m], r); }
            ROp::ROk => { let r = cd(0, b""); ensure!(r == 0, "Ok of a Rust function: C++ step {}", r); }
            ROp::RErr(m) => { let r = cd(1, MSGS[m]); ensure!(r == 0, "Err({:?}) of a Rust function: C++ step {}", MSGS[m], r); }
        }
        key.clear();
        key.push(o as u8);
    }
    Ok(true)
}
/// Kinds of exception whose message is fixed.
fn kind_text(k: i32, m: &str) -> String { match k { 4 => "std::bad_alloc".into(), 5 => "std::exception".into(), 6 => "vector::_M_range_check: __n (which is 3) >= this->size() (which is 0)".into(), 8 => format!("{}!", m), _ => m.into() } }
// ------------------------------------------------ messages byte by byte
const BYTES: &[u8] = b"a\0\x7f\x80\xbf\xc3\xa9\xe2\xed\xf0\x9f\xf4\xff ";
fn bytes_history(t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    let msg: Vec<u8> = t.iter().map(|i| BYTES[*i as usize]).collect();
    let w = want(&msg);
    for k in [1, 2, 3, 7, 9] {
        let e = ffi::cthrow(k, &msg);
        let Err(e) = e else { return Err(format!("exception {} with message {:?} became Ok", k, msg)) };
        ensure!(e.what() == w && e.to_string() == w, "exception {} with message {:?} became {:?}", k, msg, e.what());
        ensure!(format!("{:?}", e) == format!("Exception {{ what: {:?} }}", w));
    }
    let r = ffi::csees(1, &msg);
    ensure!(r == 0, "C++ sees Err({:?}) wrongly at step {}", lossy(&msg), r);
    if let Ok(s) = std::str::from_utf8(&msg) {
        for k in 0..5 {
            let r = ffi::csees_other(k, s);
            ensure!(r == 0, "C++ sees error type {} with text {:?} wrongly at step {}", k, s, r);
        }
    }
    key.extend_from_slice(&msg);
    Ok(true)
}
fn long_history(t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    for &o in t {
        let n = [15, 16, 22, 23, 24, 255, 4096, 100_000][o as usize % 8];
        let msg: Vec<u8> = if o < 8 { vec![b'x'; n] } else if o < 16 { [0xc3, 0xa9].repeat(n) } else { vec![0xff; n] };
        let e = ffi::cthrow(1, &msg);
        ensure!(e.is_err() && e.unwrap_err().what() == lossy(&msg), "message of {} bytes differs", msg.len());
        let r = ffi::csees(1, &msg);
        ensure!(r == 0, "C++ sees an Err with {} bytes wrongly at step {}", msg.len(), r);
        key.clear();
        key.push(o as u8);
    }
    Ok(true)
}
// ------------------------------------------------ chains of frames
const ACTS: [&str; 13] = ["propagate", "map", "swallow", "fail", "fail after", "rethrow", "convert", "copy", "twice", "ok", "twice keep first failure", "in destructor", "on a thread"];
thread_local! { static LOG: Cell<i32> = const { Cell::new(0) }; }
static mut SCRIPT: [u8; 16] = [0; 16];
static mut LEN: usize = 0;
static mut RGUARDS: i32 = 0;
static mut SIDE: i32 = 0;
fn action(n: usize) -> u8 { unsafe { if n < LEN { SCRIPT[n] } else { 9 } } }
fn rlog(n: i32) { unsafe { SIDE = SIDE.wrapping_mul(31).wrapping_add(n + 1) } }
struct RGuard;
impl RGuard { fn new() -> Self { unsafe { RGUARDS += 1 } RGuard } }
impl Drop for RGuard { fn drop(&mut self) { unsafe { RGUARDS -= 1 } } }
fn rlevel(n: usize) -> Result<i32, Box<dyn std::error::Error>> {
    let _g = RGuard::new();
    rlog(n as i32);
    let next = || ffi::clevel(n + 1);
    Ok(match action(n) {
        0 => next()? + 1,
        1 => next().map_err(|e| format!("r{}:{}", n, e))? + 1,
        2 => next().unwrap_or(-(n as i32)),
        3 => return Err(format!("r{}", n).into()),
        4 => { next()?; return Err(Box::new(std::io::Error::new(std::io::ErrorKind::Other, format!("r{}", n)))); }
        5 => match next() { Ok(x) => x, Err(e) => return Err(Box::new(e)) },
        6 => next().map_err(|e| e.what().to_owned())?,
        7 => { let r = next(); let e = r.as_ref().err().map(|e| e.to_string()); drop(r); match e { Some(e) => return Err(e.into()), None => 5 } }
        8 => { let _ = next(); next()? }
        9 => 100 + n as i32,
        10 => { let r = next(); let q = next(); r? + q? }
        11 => { struct D(usize); impl Drop for D { fn drop(&mut self) { let _ = ffi::clevel(self.0 + 1); } } { let _d = D(n); } 7 }
        _ => std::thread::spawn(move || ffi::clevel(n + 1)).join().unwrap()?,
    })
}
/// What a frame should do.
fn reference(script: &[u8], n: usize, rust: bool, side: &mut i32) -> Result<i32, String> {
    *side = side.wrapping_mul(31).wrapping_add(n as i32 + 1);
    let c = if rust { 'r' } else { 'c' };
    let mut next = |side: &mut i32| reference(script, n + 1, !rust, side);
    Ok(match script.get(n).copied().unwrap_or(9) {
        0 => next(side)? + 1,
        1 => next(side).map_err(|e| format!("{}{}:{}", c, n, e))? + 1,
        2 => next(side).unwrap_or(-(n as i32)),
        3 => return Err(format!("{}{}", c, n)),
        4 => { next(side)?; return Err(format!("{}{}", c, n)); }
        5 | 6 => next(side)?,
        7 => { next(side)?; 5 }
        8 => { let _ = next(side); next(side)? }
        9 => 100 + n as i32,
        10 => { let r = next(side); let q = next(side); r? + q? }
        11 => { let _ = next(side); 7 }
        _ => next(side)?,
    })
}
fn chain(rust: bool, acts: &[u8], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    let script: Vec<u8> = t.iter().map(|o| acts[*o as usize]).collect();
    unsafe { SIDE = 0; LEN = script.len(); (&mut *(&raw mut SCRIPT))[..script.len()].copy_from_slice(&script); }
    let mut side = 0;
    let want = reference(&script, 0, rust, &mut side);
    let got = if rust {
        let mut out = String::new();
        let v = ffi::croot(&mut out);
        if v == i32::MIN { Err(out) } else { Ok(v) }
    } else {
        ffi::clevel(0).map_err(|e| e.what().to_owned())
    };
    ensure!(got == want, "got {:?}, expected {:?}", got, want);
    unsafe { ensure!(SIDE == side, "frames ran in the wrong order or number"); ensure!(RGUARDS == 0, "{} Rust guards not dropped", RGUARDS); }
    ensure!(ffi::guards() == 0, "{} C++ guards not destroyed", ffi::guards());
    key.extend_from_slice(&script);
    Ok(true)
}
pub fn systems() -> Vec<System> {
    let mut v = vec![];
    let names = |a: &[u8]| a.iter().map(|i| ACTS[*i as usize].to_owned()).collect::<Vec<_>>();
    v.push(rust_system("err-bytes", BYTES.iter().map(|b| format!("{:02x}", b)).collect(), bytes_history));
    v.push(rust_system("err-long", (0..24).map(|b| format!("length class {}", b)).collect(), long_history));
    for rust in [true, false] {
        let w = if rust { "err-chain-into-rust" } else { "err-chain-into-cxx" };
        let a: Vec<u8> = (0..11).collect();
        v.push(rust_system(w, names(&a), { let a = a.clone(); move |t, k| chain(rust, &a, t, k) }));
        let a: Vec<u8> = vec![0, 1, 2, 3, 4, 11, 12];
        v.push(rust_system(&format!("{}-thread", w), names(&a), { let a = a.clone(); move |t, k| chain(rust, &a, t, k) }));
    }
@SYS@    v
}
/// Exceptions nobody is to catch: each in a child that must end by std::terminate.
pub fn wild(k: i32) {
    if k < 5 { ffi::wild(k) } else { let _ = ffi::wild_result(k - 5); }
}
'''
HPP_A = r'''// Generated by gen_c11.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <memory>
#include <string>
namespace c11a {
struct Sh; struct Small; enum class En : std::uint8_t; struct RObj;
class CObj { std::int32_t v; std::string pad = "padding that does not fit a small string"; public: CObj(std::int32_t k) : v(k) {} std::int32_t cval() const { return v; } };
using S = rust::Slice<const std::uint8_t>;
std::unique_ptr<CObj> mkcobj(std::int32_t k);
std::shared_ptr<CObj> mkshared(std::int32_t k);
std::unique_ptr<std::string> mkstr();
CObj *static_cobj();
void cthrow(std::int32_t kind, S msg);
std::int32_t csees(std::int32_t kind, S msg);
std::int32_t csees_other(std::int32_t kind, rust::Str msg);
std::int32_t clevel(std::size_t n);
std::int32_t guards();
std::int32_t croot(rust::String &out);
std::int32_t clog();
void wild(std::int32_t k);
rust::String wild_result(std::int32_t k);
@D@} // namespace c11a
'''
CC_A = r'''// Generated by gen_c11.py.
#include "rt/src/c11a.rs.h"
#include <exception>
#include <new>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <vector>
namespace c11a {
static const std::uint16_t three[3] = {1, 2, 3};
std::unique_ptr<CObj> mkcobj(std::int32_t k) { return std::make_unique<CObj>(k); }
std::shared_ptr<CObj> mkshared(std::int32_t k) { return std::make_shared<CObj>(k); }
std::unique_ptr<std::string> mkstr() { return std::make_unique<std::string>("cxx"); }
CObj *static_cobj() { static CObj o(78); return &o; }
struct Custom : std::exception { std::string m; Custom(std::string m) : m(std::move(m)) {} const char *what() const noexcept override { return m.c_str(); } };
struct Derived : std::runtime_error { std::string m; Derived(std::string m) : std::runtime_error("hidden"), m(m + "!") {} const char *what() const noexcept override { return m.c_str(); } };
struct Mixin { virtual ~Mixin() {} int pad = 3; };
struct Second : Mixin, std::logic_error { Second(const std::string &m) : std::logic_error(m) {} };
[[noreturn]] static void raise(std::int32_t kind, const std::string &m) {
  switch (kind) {
  case 1: throw std::runtime_error(m);
  case 2: throw Custom(m);
  case 3: throw Second(m);
  case 4: throw std::bad_alloc();
  case 5: throw std::exception();
  case 6: { std::vector<int> v; v.at(3); std::terminate(); }
  case 7: try { throw std::runtime_error(m); } catch (...) { throw; }
  case 8: throw Derived(m);
  case 9: try { rfail(1, S(reinterpret_cast<const std::uint8_t *>(m.data()), m.size())); std::terminate(); } catch (const rust::Error &e) { throw rust::Error(e); }
  case 10: { std::exception_ptr p; try { throw std::logic_error(m); } catch (...) { p = std::current_exception(); } std::rethrow_exception(p); }
  case 11: try { throw std::logic_error("inner"); } catch (...) { std::throw_with_nested(Custom(m)); }
  }
  std::terminate();
}
static std::string text(S m) { return std::string(reinterpret_cast<const char *>(m.data()), m.size()); }
void cthrow(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); }
// The text C++ should see: Rust decodes lossily, what() ends at a NUL.
static std::string expected(S msg) { return std::string(std::string(rust::String::lossy(text(msg))).c_str()); }
static std::int32_t look(const rust::Error &e, const std::string &w) {
  if (e.what() == nullptr) return 2;
  if (w != e.what()) return 3;
  rust::Error c(e), d(std::move(c));
  if (w != d.what()) return 4;
  c = e;
  if (w != c.what() || w != e.what()) return 5;
  try { throw d; } catch (const std::exception &f) { if (w != f.what() || typeid(f) != typeid(rust::Error)) return 6; }
  return 0;
}
template <class F> static std::int32_t sees(const std::string &w, F f) {
  try { f(); return 1; } catch (const rust::Error &e) { if (auto r = look(e, w)) return r; }
  try { f(); return 1; } catch (const std::exception &e) { if (w != e.what() || typeid(e) != typeid(rust::Error)) return 7; }
  try { f(); return 1; } catch (rust::Error e) { if (auto r = look(e, w)) return r + 10; }
  std::exception_ptr p;
  try { f(); return 1; } catch (...) { p = std::current_exception(); }
  try { std::rethrow_exception(p); } catch (const rust::Error &e) { if (auto r = look(e, w)) return r + 20; }
  return 0;
}
std::int32_t csees(std::int32_t kind, S msg) { return sees(expected(msg), [&] { rfail(kind, msg); }); }
std::int32_t csees_other(std::int32_t kind, rust::Str msg) {
  std::string w = std::string(msg).c_str();
  switch (kind) {
  case 0: return sees(w, [&] { rfail_io(msg); });
  case 1: return sees(w, [&] { rfail_dyn(msg); });
  case 2: return sees(w, [&] { rfail_str(msg); });
  case 3: { // {:>6}|1 pads to six characters
    std::string s(msg); int n = 0; for (char c : s) n += (c & 0xc0) != 0x80;
    std::string f = std::string(n < 6 ? 6 - n : 0, ' ') + s + "|1";
    return sees(f.c_str(), [&] { rfail_fmt(msg); }); }
  case 4: return sees(w, [&] { rfail_exc(msg); });
  }
  return 99;
}
static std::int32_t nguards;
std::int32_t guards() { return nguards; }
struct Guard { std::string s = "a guard that owns some memory"; Guard() { ++nguards; } ~Guard() { --nguards; } };
std::int32_t clevel(std::size_t n) {
  Guard g;
  rlog(n);
  auto next = [&] { Guard h; return rlevel(n + 1); };
  std::string me = "c" + std::to_string(n);
  switch (action(n)) {
  case 0: return next() + 1;
  case 1: try { return next() + 1; } catch (const rust::Error &e) { throw std::runtime_error(me + ":" + e.what()); }
  case 2: try { return next(); } catch (const std::exception &) { return -(std::int32_t)n; }
  case 3: throw Custom(me);
  case 4: next(); throw std::logic_error(me);
  case 5: try { return next(); } catch (...) { throw; }
  case 6: { std::exception_ptr p; std::int32_t r = 0; try { r = next(); } catch (...) { p = std::current_exception(); } if (p) std::rethrow_exception(p); return r; }
  case 7: try { next(); return 5; } catch (rust::Error e) { throw e; }
  case 8: try { next(); } catch (const rust::Error &) {} return next();
  case 9: return 100 + n;
  case 10: { std::exception_ptr p, q; std::int32_t a = 0, b = 0; try { a = next(); } catch (...) { p = std::current_exception(); } try { b = next(); } catch (...) { q = std::current_exception(); } if (p) std::rethrow_exception(p); if (q) std::rethrow_exception(q); return a + b; }
  case 11: { struct D { decltype(next) &f; ~D() { try { f(); } catch (const rust::Error &) {} } }; try { D d{next}; throw 3; } catch (int) {} return 7; }
  default: { std::exception_ptr p; std::int32_t r = 0; std::thread t([&] { try { r = next(); } catch (...) { p = std::current_exception(); } }); t.join(); if (p) std::rethrow_exception(p); return r; }
  }
}
std::int32_t croot(rust::String &out) { try { Guard g; return rlevel(0); } catch (const rust::Error &e) { out = rust::String(e.what()); return INT32_MIN; } }
std::int32_t clog() { return 0; }
static void throw_any(std::int32_t k) {
  switch (k) {
  case 0: throw 1;
  case 1: throw "text";
  case 2: throw std::string("text");
  case 3: { struct X {}; throw X(); }
  case 4: throw std::runtime_error("x");
  }
}
void wild(std::int32_t k) { std::set_terminate([] { _exit(45); }); throw_any(k); }
rust::String wild_result(std::int32_t k) { std::set_terminate([] { _exit(45); }); throw_any(k); return {}; }
@C@} // namespace c11a
'''
bc, br, rs, sysl, decl, cdef = [], [], [], [], [], []
for tag, T, C, rv, rc, cv, cc, _ in RET:
    bc += ["fn cret_%s(kind: i32, msg: &[u8]) -> Result<%s>;" % (tag, T), "fn cdrive_%s(kind: i32, msg: &[u8]) -> i32;" % tag]
    br.append("fn rret_%s(kind: i32, msg: &[u8]) -> Result<%s>;" % (tag, T))
    rs.append("fn rret_%s(kind: i32, msg: &[u8]) -> Result<%s, Chunked> { if kind == 0 { Ok(%s) } else { Err(Chunked(lossy(msg))) } }" % (tag, T, rv))
    rs.append("fn call_%s(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_%s(kind, msg).map(|x| %s).map_err(|e| e.what().to_owned()) }" % (tag, tag, rc))
    sysl.append('    v.push(rust_system("err-ret-%s", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_%s, ffi::cdrive_%s, &all, t, k) }));' % (tag, tag, tag))
    decl.append("%s cret_%s(std::int32_t kind, S msg);\nstd::int32_t cdrive_%s(std::int32_t kind, S msg);" % (C, tag, tag))
    ret = "return;" if C == "void" else "return %s;" % cv
    cdef.append("%s cret_%s(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); %s }" % (C, tag, ret))
    ok = "rret_%s(kind, msg); return kind ? 1 : 0;" % tag if C == "void" else "%s x = rret_%s(kind, msg); return kind ? 1 : %s ? 0 : 8;" % (C, tag, cc)
    cdef.append("std::int32_t cdrive_%s(std::int32_t kind, S msg) { try { %s } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }" % (tag, ok))
RUST_B = r'''//! Generated by gen_c11.py.
//! C11: a custom trycatch.
use crate::engine::{rust_system, System};
use crate::ensure;
#[cxx::bridge(namespace = "c11b")]
mod ffi {
    unsafe extern "C++" {
        include!("rt/cc/c11b.hpp");
        fn custom(kind: i32, msg: &[u8]) -> Result<()>;
        fn custom_value(kind: i32, msg: &[u8]) -> Result<String>;
        fn custom_ptr(kind: i32, msg: &[u8]) -> Result<UniquePtr<CxxString>>;
        fn calls() -> i32;
    }
}
const BYTES: &[u8] = b"a\0\xc3\xa9\xff\xf0\x9f";
fn history(t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    let msg: Vec<u8> = t.iter().map(|i| BYTES[*i as usize]).collect();
    let full = String::from_utf8_lossy(&msg).into_owned();
    let cut = String::from_utf8_lossy(msg.split(|b| *b == 0).next().unwrap()).into_owned();
    // kind 0 does not throw; 1: std::exception; 2: a std::string; 3: an int; 4: char const *; 5: a class of its own; 6: nested try; 7: twice
    for (k, w) in [(0, None), (1, Some(format!("std:{}", cut))), (2, Some(full.clone())), (3, Some("int".to_owned())), (4, Some(cut.clone())), (5, Some(full.clone())), (6, Some(cut.clone())), (0, None)] {
        let n = ffi::calls();
        let r = ffi::custom(k, &msg).map_err(|e| e.what().to_owned());
        ensure!(r.as_ref().err() == w.as_ref(), "kind {} with {:?} became {:?}, expected {:?}", k, msg, r, w);
        ensure!(ffi::calls() == n + 1, "the custom trycatch was not used");
        let r = ffi::custom_value(k, &msg).map_err(|e| e.what().to_owned());
        ensure!(r == match &w { None => Ok("value".to_owned()), Some(e) => Err(e.clone()) }, "kind {} with {:?} became {:?}, expected {:?}", k, msg, r, w);
        let r = ffi::custom_ptr(k, &msg).map_err(|e| e.what().to_owned());
        match (&w, r) {
            (None, Ok(p)) => ensure!(p.as_bytes() == &msg[..]),
            (Some(e), Err(f)) => ensure!(*e == f),
            _ => return Err(format!("kind {} with {:?}: wrong outcome", k, msg)),
        }
    }
    key.extend_from_slice(&msg);
    Ok(true)
}
pub fn systems() -> Vec<System> { vec![rust_system("err-custom", BYTES.iter().map(|b| format!("{:02x}", b)).collect(), history)] }
'''
HPP_B = r'''// Generated by gen_c11.py.
#pragma once
#include "rust/cxx.h"
#include <cstdint>
#include <exception>
#include <memory>
#include <string>
namespace c11b {
struct Own { std::string m; };
extern std::int32_t ncalls;
void custom(std::int32_t kind, rust::Slice<const std::uint8_t> msg);
rust::String custom_value(std::int32_t kind, rust::Slice<const std::uint8_t> msg);
std::unique_ptr<std::string> custom_ptr(std::int32_t kind, rust::Slice<const std::uint8_t> msg);
std::int32_t calls();
} // namespace c11b
namespace rust {
namespace behavior {
template <typename Try, typename Fail>
static void trycatch(Try &&func, Fail &&fail) noexcept try {
  ++c11b::ncalls;
  func();
} catch (const std::exception &e) {
  fail(std::string("std:") + e.what());
} catch (const std::string &s) {
  fail(s);
} catch (int) {
  fail("int");
} catch (const char *s) {
  fail(s);
} catch (const c11b::Own &o) {
  fail(o.m);
}
} // namespace behavior
} // namespace rust
'''
CC_B = r'''// Generated by gen_c11.py.
#include "rt/src/c11b.rs.h"
#include <stdexcept>
namespace c11b {
std::int32_t ncalls;
std::int32_t calls() { return ncalls; }
static std::string text;
static void go(std::int32_t kind, rust::Slice<const std::uint8_t> msg) {
  text = std::string(reinterpret_cast<const char *>(msg.data()), msg.size());
  switch (kind) {
  case 1: throw std::runtime_error(text);
  case 2: throw text;
  case 3: throw 3;
  case 4: throw text.c_str();
  case 5: throw Own{text};
  case 6: try { throw std::runtime_error("inner"); } catch (const std::exception &) { throw static_cast<const char *>(text.c_str()); }
  }
}
void custom(std::int32_t kind, rust::Slice<const std::uint8_t> msg) { go(kind, msg); }
rust::String custom_value(std::int32_t kind, rust::Slice<const std::uint8_t> msg) { go(kind, msg); return rust::String("value"); }
std::unique_ptr<std::string> custom_ptr(std::int32_t kind, rust::Slice<const std::uint8_t> msg) { auto p = std::make_unique<std::string>(reinterpret_cast<const char *>(msg.data()), msg.size()); go(kind, msg); return p; }
} // namespace c11b
'''
w = lambda p, s: open(os.path.join(HERE, p), "w").write(s)
ind = lambda l, n: "".join(" " * n + x + "\n" for x in l)
w("src/c11a.rs", RUST_A.replace("@BC@", ind(bc, 8)).replace("@BR@", ind(br, 8)).replace("@RS@", ind(rs, 0)).replace("@SYS@", "\n".join(sysl) + "\n").replace("@NK@", "12"))
w("cc/c11a.hpp", HPP_A.replace("@D@", ind(decl, 0)))
w("cc/c11a.cc", CC_A.replace("@C@", ind(cdef, 0)))
w("src/c11b.rs", RUST_B); w("cc/c11b.hpp", HPP_B); w("cc/c11b.cc", CC_B)
