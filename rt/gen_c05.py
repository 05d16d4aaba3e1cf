#!/usr/bin/env python3
# Writes src/c05.rs (C05: rust::Box and rust::Error).
K = [("Op","op"),("Zst","zst"),("Al","al"),("Sh","sh"),("Bx","bx"),("En","en"),("Tracked","tracked"),("TrackedA","trackeda")]
o = []
w = o.append
w('''//! Generated by gen_c05.py.
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
#[cxx::bridge(namespace = "c05")]
mod ffi {
    struct Sh {
        s: String,
        n: i32,
    }
    struct Bx {
        b: Box<Op>,
        n: i32,
    }
    #[repr(u16)]
    enum En {
        A = 1,
        B = 2,
        C = 3,
    }
    unsafe extern "C++" {
        include!("rt/cc/c05.hpp");
        type Tracked = crate::c05::Tracked;
        type TrackedA = crate::c05::TrackedA;
    }
    impl Box<Tracked> {}
    impl Box<TrackedA> {}
    extern "Rust" {
        type Op;
        fn val(self: &Op) -> i32;
        fn set(self: &mut Op, k: i32);
        type Zst;
        fn val(self: &Zst) -> i32;
        type Al;
        fn val(self: &Al) -> i32;
        fn set(self: &mut Al, k: i32);
        fn rust_objs() -> i64;
        fn rust_bad() -> bool;
        fn fail(k: i32) -> Result<()>;
        fn fail_str(s: &str) -> Result<i32>;
        fn fail_box(k: i32) -> Result<Box<Op>>;''')
for T,n in K:
    w(f'''        fn make_{n}(k: i32) -> Box<{T}>;
        fn take_{n}(b: Box<{T}>) -> i32;
        fn echo_{n}(b: Box<{T}>) -> Box<{T}>;
        fn peek_{n}(b: &Box<{T}>) -> i32;
        fn addr_{n}(b: &Box<{T}>) -> usize;
        fn replace_{n}(b: &mut Box<{T}>, k: i32);
        fn swap_{n}(a: &mut Box<{T}>, b: &mut Box<{T}>);
        fn maybe_{n}(b: Box<{T}>, keep: bool) -> Result<Box<{T}>>;''')
w('''    }
}
use ffi::{Bx, En, Sh};
static OBJS: AtomicI64 = AtomicI64::new(0);
static BAD: AtomicI64 = AtomicI64::new(0);
fn rust_objs() -> i64 { OBJS.load(Relaxed) }
fn rust_bad() -> bool { BAD.load(Relaxed) != 0 }
const TEXTS: [&str; 4] = ["", "one", "the second text is longer than any small buffer", "3"];
const MAGIC: u32 = 0x5ca1ab1e;
pub struct Op { v: i32, magic: u32 }
impl Op {
    fn new(v: i32) -> Self { OBJS.fetch_add(1, Relaxed); Op { v, magic: MAGIC } }
    fn val(&self) -> i32 { if self.magic != MAGIC { BAD.store(1, Relaxed); } self.v }
    fn set(&mut self, k: i32) { self.v = k }
}
impl Drop for Op { fn drop(&mut self) { if self.magic != MAGIC { BAD.store(1, Relaxed); } self.magic = 0; OBJS.fetch_sub(1, Relaxed); } }
pub struct Zst;
impl Zst { fn val(&self) -> i32 { 1 } }
impl Drop for Zst { fn drop(&mut self) { OBJS.fetch_sub(1, Relaxed); } }
#[repr(align(64))]
pub struct Al { a: [u64; 9], o: Op }
impl Al {
    fn val(&self) -> i32 { if self as *const _ as usize % 64 != 0 || self.a.iter().any(|x| *x != self.o.v as u64) { BAD.store(1, Relaxed); } self.o.val() }
    fn set(&mut self, k: i32) { self.a = [k as u64; 9]; self.o.set(k) }
}
#[repr(C)]
pub struct Tracked { id: u64, val: i32, pad: i32 }
#[repr(C, align(64))]
pub struct TrackedA { t: Tracked }
unsafe impl cxx::ExternType for Tracked { type Id = cxx::type_id!("c05::Tracked"); type Kind = cxx::kind::Trivial; }
unsafe impl cxx::ExternType for TrackedA { type Id = cxx::type_id!("c05::TrackedA"); type Kind = cxx::kind::Trivial; }
unsafe extern "C" { fn vk5_tracked_new() -> u64; fn vk5_tracked_drop(id: u64); }
impl Tracked { fn new(val: i32) -> Self { Tracked { id: unsafe { vk5_tracked_new() }, val, pad: 0 } } }
impl Drop for Tracked { fn drop(&mut self) { unsafe { vk5_tracked_drop(self.id) } } }
trait Pay { fn mk(k: i32) -> Self; fn get(&self) -> i32; }
impl Pay for Op { fn mk(k: i32) -> Self { Op::new(k) } fn get(&self) -> i32 { self.val() } }
impl Pay for Zst { fn mk(_: i32) -> Self { OBJS.fetch_add(1, Relaxed); Zst } fn get(&self) -> i32 { 1 } }
impl Pay for Al { fn mk(k: i32) -> Self { Al { a: [k as u64; 9], o: Op::new(k) } } fn get(&self) -> i32 { self.val() } }
impl Pay for Sh { fn mk(k: i32) -> Self { Sh { s: TEXTS[k as usize].to_owned(), n: k } } fn get(&self) -> i32 { if self.s == TEXTS[self.n as usize] { self.n } else { -1 } } }
impl Pay for Bx { fn mk(k: i32) -> Self { Bx { b: Box::new(Op::new(k)), n: k } } fn get(&self) -> i32 { if self.b.val() == self.n { self.n } else { -1 } } }
impl Pay for En { fn mk(k: i32) -> Self { En { repr: k as u16 } } fn get(&self) -> i32 { self.repr as i32 } }
impl Pay for Tracked { fn mk(k: i32) -> Self { Tracked::new(k) } fn get(&self) -> i32 { self.val } }
impl Pay for TrackedA { fn mk(k: i32) -> Self { TrackedA { t: Tracked::new(k) } } fn get(&self) -> i32 { if self as *const _ as usize % 64 != 0 { BAD.store(1, Relaxed); } self.t.val } }
pub struct Msg(String);
impl std::fmt::Display for Msg { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
pub fn msg(k: i32) -> String {
    match k { 0 => "".into(), 1 => "one".into(), 2 => "\\u{1f980} message, longer than fifteen".into(), 3 => "x".repeat(5000), _ => "\\n".into() }
}
fn fail(k: i32) -> Result<(), Msg> { if k < 0 { Ok(()) } else { Err(Msg(msg(k))) } }
fn fail_str(s: &str) -> Result<i32, Msg> { Err(Msg(s.to_owned())) }
fn fail_box(k: i32) -> Result<Box<Op>, Msg> { let _b = Box::new(Op::new(k)); Err(Msg(msg(k))) }''')
for T,n in K:
    w(f'''fn make_{n}(k: i32) -> Box<{T}> {{ Box::new(Pay::mk(k)) }}
fn take_{n}(b: Box<{T}>) -> i32 {{ b.get() }}
fn echo_{n}(b: Box<{T}>) -> Box<{T}> {{ b }}
fn peek_{n}(b: &Box<{T}>) -> i32 {{ b.get() }}
fn addr_{n}(b: &Box<{T}>) -> usize {{ &**b as *const {T} as usize }}
fn replace_{n}(b: &mut Box<{T}>, k: i32) {{ *b = Box::new(Pay::mk(k)) }}
fn swap_{n}(a: &mut Box<{T}>, b: &mut Box<{T}>) {{ std::mem::swap(a, b) }}
fn maybe_{n}(b: Box<{T}>, keep: bool) -> Result<Box<{T}>, Msg> {{ if keep {{ Ok(b) }} else {{ Err(Msg(b.get().to_string())) }} }}''')
open("src/c05.rs","w").write("\n".join(o)+"\n")
