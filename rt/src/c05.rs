//! Generated by gen_c05.py.
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
#[cxx::bridge(namespace = "c05")]
mod ffi {
    struct Sh {
        s: String,
        n: i32,
    }
    struct Bx {
        b: Box<Op>,
        n: i32,
    }
    #[repr(u16)]
    enum En {
        A = 1,
        B = 2,
        C = 3,
    }
    unsafe extern "C++" {
        include!("rt/cc/c05.hpp");
        type Tracked = crate::c05::Tracked;
        type TrackedA = crate::c05::TrackedA;
    }
    impl Box<Tracked> {}
    impl Box<TrackedA> {}
    extern "Rust" {
        type Op;
        fn val(self: &Op) -> i32;
        fn set(self: &mut Op, k: i32);
        type Zst;
        fn val(self: &Zst) -> i32;
        type Al;
        fn val(self: &Al) -> i32;
        fn set(self: &mut Al, k: i32);
        fn rust_objs() -> i64;
        fn rust_bad() -> bool;
        fn fail(k: i32) -> Result<()>;
        fn fail_str(s: &str) -> Result<i32>;
        fn fail_box(k: i32) -> Result<Box<Op>>;
        fn make_op(k: i32) -> Box<Op>;
        fn take_op(b: Box<Op>) -> i32;
        fn echo_op(b: Box<Op>) -> Box<Op>;
        fn peek_op(b: &Box<Op>) -> i32;
        fn addr_op(b: &Box<Op>) -> usize;
        fn replace_op(b: &mut Box<Op>, k: i32);
        fn swap_op(a: &mut Box<Op>, b: &mut Box<Op>);
        fn maybe_op(b: Box<Op>, keep: bool) -> Result<Box<Op>>;
        fn make_zst(k: i32) -> Box<Zst>;
        fn take_zst(b: Box<Zst>) -> i32;
        fn echo_zst(b: Box<Zst>) -> Box<Zst>;
        fn peek_zst(b: &Box<Zst>) -> i32;
        fn addr_zst(b: &Box<Zst>) -> usize;
        fn replace_zst(b: &mut Box<Zst>, k: i32);
        fn swap_zst(a: &mut Box<Zst>, b: &mut Box<Zst>);
        fn maybe_zst(b: Box<Zst>, keep: bool) -> Result<Box<Zst>>;
        fn make_al(k: i32) -> Box<Al>;
        fn take_al(b: Box<Al>) -> i32;
        fn echo_al(b: Box<Al>) -> Box<Al>;
        fn peek_al(b: &Box<Al>) -> i32;
        fn addr_al(b: &Box<Al>) -> usize;
        fn replace_al(b: &mut Box<Al>, k: i32);
        fn swap_al(a: &mut Box<Al>, b: &mut Box<Al>);
        fn maybe_al(b: Box<Al>, keep: bool) -> Result<Box<Al>>;
        fn make_sh(k: i32) -> Box<Sh>;
        fn take_sh(b: Box<Sh>) -> i32;
        fn echo_sh(b: Box<Sh>) -> Box<Sh>;
        fn peek_sh(b: &Box<Sh>) -> i32;
        fn addr_sh(b: &Box<Sh>) -> usize;
        fn replace_sh(b: &mut Box<Sh>, k: i32);
        fn swap_sh(a: &mut Box<Sh>, b: &mut Box<Sh>);
        fn maybe_sh(b: Box<Sh>, keep: bool) -> Result<Box<Sh>>;
        fn make_bx(k: i32) -> Box<Bx>;
        fn take_bx(b: Box<Bx>) -> i32;
        fn echo_bx(b: Box<Bx>) -> Box<Bx>;
        fn peek_bx(b: &Box<Bx>) -> i32;
        fn addr_bx(b: &Box<Bx>) -> usize;
        fn replace_bx(b: &mut Box<Bx>, k: i32);
        fn swap_bx(a: &mut Box<Bx>, b: &mut Box<Bx>);
        fn maybe_bx(b: Box<Bx>, keep: bool) -> Result<Box<Bx>>;
        fn make_en(k: i32) -> Box<En>;
        fn take_en(b: Box<En>) -> i32;
        fn echo_en(b: Box<En>) -> Box<En>;
        fn peek_en(b: &Box<En>) -> i32;
        fn addr_en(b: &Box<En>) -> usize;
        fn replace_en(b: &mut Box<En>, k: i32);
        fn swap_en(a: &mut Box<En>, b: &mut Box<En>);
        fn maybe_en(b: Box<En>, keep: bool) -> Result<Box<En>>;
        fn make_tracked(k: i32) -> Box<Tracked>;
        fn take_tracked(b: Box<Tracked>) -> i32;
        fn echo_tracked(b: Box<Tracked>) -> Box<Tracked>;
        fn peek_tracked(b: &Box<Tracked>) -> i32;
        fn addr_tracked(b: &Box<Tracked>) -> usize;
        fn replace_tracked(b: &mut Box<Tracked>, k: i32);
        fn swap_tracked(a: &mut Box<Tracked>, b: &mut Box<Tracked>);
        fn maybe_tracked(b: Box<Tracked>, keep: bool) -> Result<Box<Tracked>>;
        fn make_trackeda(k: i32) -> Box<TrackedA>;
        fn take_trackeda(b: Box<TrackedA>) -> i32;
        fn echo_trackeda(b: Box<TrackedA>) -> Box<TrackedA>;
        fn peek_trackeda(b: &Box<TrackedA>) -> i32;
        fn addr_trackeda(b: &Box<TrackedA>) -> usize;
        fn replace_trackeda(b: &mut Box<TrackedA>, k: i32);
        fn swap_trackeda(a: &mut Box<TrackedA>, b: &mut Box<TrackedA>);
        fn maybe_trackeda(b: Box<TrackedA>, keep: bool) -> Result<Box<TrackedA>>;
    }
}
use ffi::{Bx, En, Sh};
static OBJS: AtomicI64 = AtomicI64::new(0);
static BAD: AtomicI64 = AtomicI64::new(0);
fn rust_objs() -> i64 { OBJS.load(Relaxed) }
fn rust_bad() -> bool { BAD.load(Relaxed) != 0 }
const TEXTS: [&str; 4] = ["", "one", "the second text is longer than any small buffer", "3"];
const MAGIC: u32 = 0x5ca1ab1e;
pub struct Op { v: i32, magic: u32 }
impl Op {
    fn new(v: i32) -> Self { OBJS.fetch_add(1, Relaxed); Op { v, magic: MAGIC } }
    fn val(&self) -> i32 { if self.magic != MAGIC { BAD.store(1, Relaxed); } self.v }
    fn set(&mut self, k: i32) { self.v = k }
}
impl Drop for Op { fn drop(&mut self) { if self.magic != MAGIC { BAD.store(1, Relaxed); } self.magic = 0; OBJS.fetch_sub(1, Relaxed); } }
pub struct Zst;
impl Zst { fn val(&self) -> i32 { 1 } }
impl Drop for Zst { fn drop(&mut self) { OBJS.fetch_sub(1, Relaxed); } }
#[repr(align(64))]
pub struct Al { a: [u64; 9], o: Op }
impl Al {
    fn val(&self) -> i32 { if self as *const _ as usize % 64 != 0 || self.a.iter().any(|x| *x != self.o.v as u64) { BAD.store(1, Relaxed); } self.o.val() }
    fn set(&mut self, k: i32) { self.a = [k as u64; 9]; self.o.set(k) }
}
#[repr(C)]
pub struct Tracked { id: u64, val: i32, pad: i32 }
#[repr(C, align(64))]
pub struct TrackedA { t: Tracked }
unsafe impl cxx::ExternType for Tracked { type Id = cxx::type_id!("c05::Tracked"); type Kind = cxx::kind::Trivial; }
unsafe impl cxx::ExternType for TrackedA { type Id = cxx::type_id!("c05::TrackedA"); type Kind = cxx::kind::Trivial; }
unsafe extern "C" { fn vk5_tracked_new() -> u64; fn vk5_tracked_drop(id: u64); }
impl Tracked { fn new(val: i32) -> Self { Tracked { id: unsafe { vk5_tracked_new() }, val, pad: 0 } } }
impl Drop for Tracked { fn drop(&mut self) { unsafe { vk5_tracked_drop(self.id) } } }
trait Pay { fn mk(k: i32) -> Self; fn get(&self) -> i32; }
impl Pay for Op { fn mk(k: i32) -> Self { Op::new(k) } fn get(&self) -> i32 { self.val() } }
impl Pay for Zst { fn mk(_: i32) -> Self { OBJS.fetch_add(1, Relaxed); Zst } fn get(&self) -> i32 { 1 } }
impl Pay for Al { fn mk(k: i32) -> Self { Al { a: [k as u64; 9], o: Op::new(k) } } fn get(&self) -> i32 { self.val() } }
impl Pay for Sh { fn mk(k: i32) -> Self { Sh { s: TEXTS[k as usize].to_owned(), n: k } } fn get(&self) -> i32 { if self.s == TEXTS[self.n as usize] { self.n } else { -1 } } }
impl Pay for Bx { fn mk(k: i32) -> Self { Bx { b: Box::new(Op::new(k)), n: k } } fn get(&self) -> i32 { if self.b.val() == self.n { self.n } else { -1 } } }
impl Pay for En { fn mk(k: i32) -> Self { En { repr: k as u16 } } fn get(&self) -> i32 { self.repr as i32 } }
impl Pay for Tracked { fn mk(k: i32) -> Self { Tracked::new(k) } fn get(&self) -> i32 { self.val } }
impl Pay for TrackedA { fn mk(k: i32) -> Self { TrackedA { t: Tracked::new(k) } } fn get(&self) -> i32 { if self as *const _ as usize % 64 != 0 { BAD.store(1, Relaxed); } self.t.val } }
pub struct Msg(String);
impl std::fmt::Display for Msg { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
pub fn msg(k: i32) -> String {
    match k { 0 => "".into(), 1 => "one".into(), 2 => "\u{1f980} message, longer than fifteen".into(), 3 => "x".repeat(5000), _ => "\n".into() }
}
fn fail(k: i32) -> Result<(), Msg> { if k < 0 { Ok(()) } else { Err(Msg(msg(k))) } }
fn fail_str(s: &str) -> Result<i32, Msg> { Err(Msg(s.to_owned())) }
fn fail_box(k: i32) -> Result<Box<Op>, Msg> { let _b = Box::new(Op::new(k)); Err(Msg(msg(k))) }
fn make_op(k: i32) -> Box<Op> { Box::new(Pay::mk(k)) }
fn take_op(b: Box<Op>) -> i32 { b.get() }
fn echo_op(b: Box<Op>) -> Box<Op> { b }
fn peek_op(b: &Box<Op>) -> i32 { b.get() }
fn addr_op(b: &Box<Op>) -> usize { &**b as *const Op as usize }
fn replace_op(b: &mut Box<Op>, k: i32) { *b = Box::new(Pay::mk(k)) }
fn swap_op(a: &mut Box<Op>, b: &mut Box<Op>) { std::mem::swap(a, b) }
fn maybe_op(b: Box<Op>, keep: bool) -> Result<Box<Op>, Msg> { if keep { Ok(b) } else { Err(Msg(b.get().to_string())) } }
fn make_zst(k: i32) -> Box<Zst> { Box::new(Pay::mk(k)) }
fn take_zst(b: Box<Zst>) -> i32 { b.get() }
fn echo_zst(b: Box<Zst>) -> Box<Zst> { b }
fn peek_zst(b: &Box<Zst>) -> i32 { b.get() }
fn addr_zst(b: &Box<Zst>) -> usize { &**b as *const Zst as usize }
fn replace_zst(b: &mut Box<Zst>, k: i32) { *b = Box::new(Pay::mk(k)) }
fn swap_zst(a: &mut Box<Zst>, b: &mut Box<Zst>) { std::mem::swap(a, b) }
fn maybe_zst(b: Box<Zst>, keep: bool) -> Result<Box<Zst>, Msg> { if keep { Ok(b) } else { Err(Msg(b.get().to_string())) } }
fn make_al(k: i32) -> Box<Al> { Box::new(Pay::mk(k)) }
fn take_al(b: Box<Al>) -> i32 { b.get() }
fn echo_al(b: Box<Al>) -> Box<Al> { b }
fn peek_al(b: &Box<Al>) -> i32 { b.get() }
fn addr_al(b: &Box<Al>) -> usize { &**b as *const Al as usize }
fn replace_al(b: &mut Box<Al>, k: i32) { *b = Box::new(Pay::mk(k)) }
fn swap_al(a: &mut Box<Al>, b: &mut Box<Al>) { std::mem::swap(a, b) }
fn maybe_al(b: Box<Al>, keep: bool) -> Result<Box<Al>, Msg> { if keep { Ok(b) } else { Err(Msg(b.get().to_string())) } }
fn make_sh(k: i32) -> Box<Sh> { Box::new(Pay::mk(k)) }
fn take_sh(b: Box<Sh>) -> i32 { b.get() }
fn echo_sh(b: Box<Sh>) -> Box<Sh> { b }
fn peek_sh(b: &Box<Sh>) -> i32 { b.get() }
fn addr_sh(b: &Box<Sh>) -> usize { &**b as *const Sh as usize }
fn replace_sh(b: &mut Box<Sh>, k: i32) { *b = Box::new(Pay::mk(k)) }
fn swap_sh(a: &mut Box<Sh>, b: &mut Box<Sh>) { std::mem::swap(a, b) }
fn maybe_sh(b: Box<Sh>, keep: bool) -> Result<Box<Sh>, Msg> { if keep { Ok(b) } else { Err(Msg(b.get().to_string())) } }
fn make_bx(k: i32) -> Box<Bx> { Box::new(Pay::mk(k)) }
fn take_bx(b: Box<Bx>) -> i32 { b.get() }
fn echo_bx(b: Box<Bx>) -> Box<Bx> { b }
fn peek_bx(b: &Box<Bx>) -> i32 { b.get() }
fn addr_bx(b: &Box<Bx>) -> usize { &**b as *const Bx as usize }
fn replace_bx(b: &mut Box<Bx>, k: i32) { *b = Box::new(Pay::mk(k)) }
fn swap_bx(a: &mut Box<Bx>, b: &mut Box<Bx>) { std::mem::swap(a, b) }
fn maybe_bx(b: Box<Bx>, keep: bool) -> Result<Box<Bx>, Msg> { if keep { Ok(b) } else { Err(Msg(b.get().to_string())) } }
fn make_en(k: i32) -> Box<En> { Box::new(Pay::mk(k)) }
fn take_en(b: Box<En>) -> i32 { b.get() }
fn echo_en(b: Box<En>) -> Box<En> { b }
fn peek_en(b: &Box<En>) -> i32 { b.get() }
fn addr_en(b: &Box<En>) -> usize { &**b as *const En as usize }
fn replace_en(b: &mut Box<En>, k: i32) { *b = Box::new(Pay::mk(k)) }
fn swap_en(a: &mut Box<En>, b: &mut Box<En>) { std::mem::swap(a, b) }
fn maybe_en(b: Box<En>, keep: bool) -> Result<Box<En>, Msg> { if keep { Ok(b) } else { Err(Msg(b.get().to_string())) } }
fn make_tracked(k: i32) -> Box<Tracked> { Box::new(Pay::mk(k)) }
fn take_tracked(b: Box<Tracked>) -> i32 { b.get() }
fn echo_tracked(b: Box<Tracked>) -> Box<Tracked> { b }
fn peek_tracked(b: &Box<Tracked>) -> i32 { b.get() }
fn addr_tracked(b: &Box<Tracked>) -> usize { &**b as *const Tracked as usize }
fn replace_tracked(b: &mut Box<Tracked>, k: i32) { *b = Box::new(Pay::mk(k)) }
fn swap_tracked(a: &mut Box<Tracked>, b: &mut Box<Tracked>) { std::mem::swap(a, b) }
fn maybe_tracked(b: Box<Tracked>, keep: bool) -> Result<Box<Tracked>, Msg> { if keep { Ok(b) } else { Err(Msg(b.get().to_string())) } }
fn make_trackeda(k: i32) -> Box<TrackedA> { Box::new(Pay::mk(k)) }
fn take_trackeda(b: Box<TrackedA>) -> i32 { b.get() }
fn echo_trackeda(b: Box<TrackedA>) -> Box<TrackedA> { b }
fn peek_trackeda(b: &Box<TrackedA>) -> i32 { b.get() }
fn addr_trackeda(b: &Box<TrackedA>) -> usize { &**b as *const TrackedA as usize }
fn replace_trackeda(b: &mut Box<TrackedA>, k: i32) { *b = Box::new(Pay::mk(k)) }
fn swap_trackeda(a: &mut Box<TrackedA>, b: &mut Box<TrackedA>) { std::mem::swap(a, b) }
fn maybe_trackeda(b: Box<TrackedA>, keep: bool) -> Result<Box<TrackedA>, Msg> { if keep { Ok(b) } else { Err(Msg(b.get().to_string())) } }
