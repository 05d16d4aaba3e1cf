//! Generated by gen_c03.py.
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
#[cxx::bridge(namespace = "c03")]
mod ffi {
    struct Sh {
        s: String,
        n: i32,
    }
    struct Bx {
        b: Box<Op>,
        n: i32,
    }
    #[repr(u16)]
    enum En {
        A = 1,
        B = 2,
        C = 3,
        D = 60000,
    }
    unsafe extern "C++" {
        include!("rt/cc/c03.hpp");
        type Tracked = crate::c03::Tracked;
    }
    impl Vec<Tracked> {}
    extern "Rust" {
        type Op;
        fn val(self: &Op) -> i32;
        fn set(self: &mut Op, k: i32);
        type Big;
        #[cxx_name = "val"]
        fn val(self: &Big) -> i32;
        fn set(self: &mut Big, k: i32);
        fn rust_objs() -> i64;
        fn box_op(k: i32) -> Box<Op>;
        fn push_u8(v: &mut Vec<u8>, k: i32);
        fn pop_u8(v: &mut Vec<u8>) -> i32;
        fn echo_u8(v: Vec<u8>) -> Vec<u8>;
        fn at_u8(v: &Vec<u8>, i: usize) -> i32;
        fn make_u8(n: usize) -> Vec<u8>;
        fn len_u8(v: &Vec<u8>) -> usize;
        fn push_u16(v: &mut Vec<u16>, k: i32);
        fn pop_u16(v: &mut Vec<u16>) -> i32;
        fn echo_u16(v: Vec<u16>) -> Vec<u16>;
        fn at_u16(v: &Vec<u16>, i: usize) -> i32;
        fn make_u16(n: usize) -> Vec<u16>;
        fn len_u16(v: &Vec<u16>) -> usize;
        fn push_u32(v: &mut Vec<u32>, k: i32);
        fn pop_u32(v: &mut Vec<u32>) -> i32;
        fn echo_u32(v: Vec<u32>) -> Vec<u32>;
        fn at_u32(v: &Vec<u32>, i: usize) -> i32;
        fn make_u32(n: usize) -> Vec<u32>;
        fn len_u32(v: &Vec<u32>) -> usize;
        fn push_u64(v: &mut Vec<u64>, k: i32);
        fn pop_u64(v: &mut Vec<u64>) -> i32;
        fn echo_u64(v: Vec<u64>) -> Vec<u64>;
        fn at_u64(v: &Vec<u64>, i: usize) -> i32;
        fn make_u64(n: usize) -> Vec<u64>;
        fn len_u64(v: &Vec<u64>) -> usize;
        fn push_usize(v: &mut Vec<usize>, k: i32);
        fn pop_usize(v: &mut Vec<usize>) -> i32;
        fn echo_usize(v: Vec<usize>) -> Vec<usize>;
        fn at_usize(v: &Vec<usize>, i: usize) -> i32;
        fn make_usize(n: usize) -> Vec<usize>;
        fn len_usize(v: &Vec<usize>) -> usize;
        fn push_i8(v: &mut Vec<i8>, k: i32);
        fn pop_i8(v: &mut Vec<i8>) -> i32;
        fn echo_i8(v: Vec<i8>) -> Vec<i8>;
        fn at_i8(v: &Vec<i8>, i: usize) -> i32;
        fn make_i8(n: usize) -> Vec<i8>;
        fn len_i8(v: &Vec<i8>) -> usize;
        fn push_i16(v: &mut Vec<i16>, k: i32);
        fn pop_i16(v: &mut Vec<i16>) -> i32;
        fn echo_i16(v: Vec<i16>) -> Vec<i16>;
        fn at_i16(v: &Vec<i16>, i: usize) -> i32;
        fn make_i16(n: usize) -> Vec<i16>;
        fn len_i16(v: &Vec<i16>) -> usize;
        fn push_i32(v: &mut Vec<i32>, k: i32);
        fn pop_i32(v: &mut Vec<i32>) -> i32;
        fn echo_i32(v: Vec<i32>) -> Vec<i32>;
        fn at_i32(v: &Vec<i32>, i: usize) -> i32;
        fn make_i32(n: usize) -> Vec<i32>;
        fn len_i32(v: &Vec<i32>) -> usize;
        fn push_i64(v: &mut Vec<i64>, k: i32);
        fn pop_i64(v: &mut Vec<i64>) -> i32;
        fn echo_i64(v: Vec<i64>) -> Vec<i64>;
        fn at_i64(v: &Vec<i64>, i: usize) -> i32;
        fn make_i64(n: usize) -> Vec<i64>;
        fn len_i64(v: &Vec<i64>) -> usize;
        fn push_isize(v: &mut Vec<isize>, k: i32);
        fn pop_isize(v: &mut Vec<isize>) -> i32;
        fn echo_isize(v: Vec<isize>) -> Vec<isize>;
        fn at_isize(v: &Vec<isize>, i: usize) -> i32;
        fn make_isize(n: usize) -> Vec<isize>;
        fn len_isize(v: &Vec<isize>) -> usize;
        fn push_f32(v: &mut Vec<f32>, k: i32);
        fn pop_f32(v: &mut Vec<f32>) -> i32;
        fn echo_f32(v: Vec<f32>) -> Vec<f32>;
        fn at_f32(v: &Vec<f32>, i: usize) -> i32;
        fn make_f32(n: usize) -> Vec<f32>;
        fn len_f32(v: &Vec<f32>) -> usize;
        fn push_f64(v: &mut Vec<f64>, k: i32);
        fn pop_f64(v: &mut Vec<f64>) -> i32;
        fn echo_f64(v: Vec<f64>) -> Vec<f64>;
        fn at_f64(v: &Vec<f64>, i: usize) -> i32;
        fn make_f64(n: usize) -> Vec<f64>;
        fn len_f64(v: &Vec<f64>) -> usize;
        fn push_bool(v: &mut Vec<bool>, k: i32);
        fn pop_bool(v: &mut Vec<bool>) -> i32;
        fn echo_bool(v: Vec<bool>) -> Vec<bool>;
        fn at_bool(v: &Vec<bool>, i: usize) -> i32;
        fn make_bool(n: usize) -> Vec<bool>;
        fn len_bool(v: &Vec<bool>) -> usize;
        fn push_string(v: &mut Vec<String>, k: i32);
        fn pop_string(v: &mut Vec<String>) -> i32;
        fn echo_string(v: Vec<String>) -> Vec<String>;
        fn at_string(v: &Vec<String>, i: usize) -> i32;
        fn make_string(n: usize) -> Vec<String>;
        fn len_string(v: &Vec<String>) -> usize;
        fn push_sh(v: &mut Vec<Sh>, k: i32);
        fn pop_sh(v: &mut Vec<Sh>) -> i32;
        fn echo_sh(v: Vec<Sh>) -> Vec<Sh>;
        fn at_sh(v: &Vec<Sh>, i: usize) -> i32;
        fn make_sh(n: usize) -> Vec<Sh>;
        fn len_sh(v: &Vec<Sh>) -> usize;
        fn push_bx(v: &mut Vec<Bx>, k: i32);
        fn pop_bx(v: &mut Vec<Bx>) -> i32;
        fn echo_bx(v: Vec<Bx>) -> Vec<Bx>;
        fn at_bx(v: &Vec<Bx>, i: usize) -> i32;
        fn make_bx(n: usize) -> Vec<Bx>;
        fn len_bx(v: &Vec<Bx>) -> usize;
        fn push_en(v: &mut Vec<En>, k: i32);
        fn pop_en(v: &mut Vec<En>) -> i32;
        fn echo_en(v: Vec<En>) -> Vec<En>;
        fn at_en(v: &Vec<En>, i: usize) -> i32;
        fn make_en(n: usize) -> Vec<En>;
        fn len_en(v: &Vec<En>) -> usize;
        fn push_tracked(v: &mut Vec<Tracked>, k: i32);
        fn pop_tracked(v: &mut Vec<Tracked>) -> i32;
        fn echo_tracked(v: Vec<Tracked>) -> Vec<Tracked>;
        fn at_tracked(v: &Vec<Tracked>, i: usize) -> i32;
        fn make_tracked(n: usize) -> Vec<Tracked>;
        fn len_tracked(v: &Vec<Tracked>) -> usize;
        fn push_op(v: &mut Vec<Op>, k: i32);
        fn pop_op(v: &mut Vec<Op>) -> i32;
        fn echo_op(v: Vec<Op>) -> Vec<Op>;
        fn at_op(v: &Vec<Op>, i: usize) -> i32;
        fn make_op(n: usize) -> Vec<Op>;
        fn len_op(v: &Vec<Op>) -> usize;
        fn push_big(v: &mut Vec<Big>, k: i32);
        fn pop_big(v: &mut Vec<Big>) -> i32;
        fn echo_big(v: Vec<Big>) -> Vec<Big>;
        fn at_big(v: &Vec<Big>, i: usize) -> i32;
        fn make_big(n: usize) -> Vec<Big>;
        fn len_big(v: &Vec<Big>) -> usize;
    }
}

static OBJS: AtomicI64 = AtomicI64::new(0);
fn rust_objs() -> i64 { OBJS.load(Relaxed) }
const TEXTS: [&str; 4] = ["", "one", "the second text is longer than any small buffer", "3"];
fn text(k: i32) -> &'static str { TEXTS[k as usize] }
fn untext(s: &str) -> i32 { TEXTS.iter().position(|t| *t == s).map(|x| x as i32).unwrap_or(-1) }
const MAGIC: u32 = 0x5ca1ab1e;
pub struct Op { v: i32, magic: u32 }
impl Op {
    fn new(v: i32) -> Self { OBJS.fetch_add(1, Relaxed); Op { v, magic: MAGIC } }
    fn val(&self) -> i32 { assert_eq!(self.magic, MAGIC); self.v }
    fn set(&mut self, k: i32) { self.v = k }
}
impl Drop for Op { fn drop(&mut self) { assert_eq!(self.magic, MAGIC, "dropped twice"); self.magic = 0; OBJS.fetch_sub(1, Relaxed); } }
fn box_op(k: i32) -> Box<Op> { Box::new(Op::new(k)) }
pub struct Big { a: [u64; 5], o: Op }
impl Big {
    fn new(v: i32) -> Self { Big { a: [v as u64; 5], o: Op::new(v) } }
    fn val(&self) -> i32 { assert!(self.a.iter().all(|x| *x == self.o.v as u64)); self.o.val() }
    fn set(&mut self, k: i32) { self.a = [k as u64; 5]; self.o.set(k) }
}
#[repr(C)]
pub struct Tracked { id: u64, val: i32, pad: i32 }
unsafe impl cxx::ExternType for Tracked { type Id = cxx::type_id!("c03::Tracked"); type Kind = cxx::kind::Trivial; }
unsafe extern "C" { fn vk_tracked_new() -> u64; fn vk_tracked_drop(id: u64); }
impl Tracked { fn new(val: i32) -> Self { Tracked { id: unsafe { vk_tracked_new() }, val, pad: 0 } } }
impl Drop for Tracked { fn drop(&mut self) { unsafe { vk_tracked_drop(self.id) } } }

fn push_u8(v: &mut Vec<u8>, k: i32) { v.push(k as u8) }
fn pop_u8(v: &mut Vec<u8>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_u8(v: Vec<u8>) -> Vec<u8> { v }
fn at_u8(v: &Vec<u8>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_u8(v: &Vec<u8>) -> usize { v.len() }
fn make_u8(n: usize) -> Vec<u8> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as u8 }).collect() }

fn push_u16(v: &mut Vec<u16>, k: i32) { v.push(k as u16) }
fn pop_u16(v: &mut Vec<u16>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_u16(v: Vec<u16>) -> Vec<u16> { v }
fn at_u16(v: &Vec<u16>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_u16(v: &Vec<u16>) -> usize { v.len() }
fn make_u16(n: usize) -> Vec<u16> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as u16 }).collect() }

fn push_u32(v: &mut Vec<u32>, k: i32) { v.push(k as u32) }
fn pop_u32(v: &mut Vec<u32>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_u32(v: Vec<u32>) -> Vec<u32> { v }
fn at_u32(v: &Vec<u32>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_u32(v: &Vec<u32>) -> usize { v.len() }
fn make_u32(n: usize) -> Vec<u32> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as u32 }).collect() }

fn push_u64(v: &mut Vec<u64>, k: i32) { v.push(k as u64) }
fn pop_u64(v: &mut Vec<u64>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_u64(v: Vec<u64>) -> Vec<u64> { v }
fn at_u64(v: &Vec<u64>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_u64(v: &Vec<u64>) -> usize { v.len() }
fn make_u64(n: usize) -> Vec<u64> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as u64 }).collect() }

fn push_usize(v: &mut Vec<usize>, k: i32) { v.push(k as usize) }
fn pop_usize(v: &mut Vec<usize>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_usize(v: Vec<usize>) -> Vec<usize> { v }
fn at_usize(v: &Vec<usize>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_usize(v: &Vec<usize>) -> usize { v.len() }
fn make_usize(n: usize) -> Vec<usize> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as usize }).collect() }

fn push_i8(v: &mut Vec<i8>, k: i32) { v.push(k as i8) }
fn pop_i8(v: &mut Vec<i8>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_i8(v: Vec<i8>) -> Vec<i8> { v }
fn at_i8(v: &Vec<i8>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_i8(v: &Vec<i8>) -> usize { v.len() }
fn make_i8(n: usize) -> Vec<i8> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as i8 }).collect() }

fn push_i16(v: &mut Vec<i16>, k: i32) { v.push(k as i16) }
fn pop_i16(v: &mut Vec<i16>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_i16(v: Vec<i16>) -> Vec<i16> { v }
fn at_i16(v: &Vec<i16>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_i16(v: &Vec<i16>) -> usize { v.len() }
fn make_i16(n: usize) -> Vec<i16> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as i16 }).collect() }

fn push_i32(v: &mut Vec<i32>, k: i32) { v.push(k as i32) }
fn pop_i32(v: &mut Vec<i32>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_i32(v: Vec<i32>) -> Vec<i32> { v }
fn at_i32(v: &Vec<i32>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_i32(v: &Vec<i32>) -> usize { v.len() }
fn make_i32(n: usize) -> Vec<i32> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as i32 }).collect() }

fn push_i64(v: &mut Vec<i64>, k: i32) { v.push(k as i64) }
fn pop_i64(v: &mut Vec<i64>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_i64(v: Vec<i64>) -> Vec<i64> { v }
fn at_i64(v: &Vec<i64>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_i64(v: &Vec<i64>) -> usize { v.len() }
fn make_i64(n: usize) -> Vec<i64> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as i64 }).collect() }

fn push_isize(v: &mut Vec<isize>, k: i32) { v.push(k as isize) }
fn pop_isize(v: &mut Vec<isize>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_isize(v: Vec<isize>) -> Vec<isize> { v }
fn at_isize(v: &Vec<isize>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_isize(v: &Vec<isize>) -> usize { v.len() }
fn make_isize(n: usize) -> Vec<isize> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as isize }).collect() }

fn push_f32(v: &mut Vec<f32>, k: i32) { v.push(k as f32) }
fn pop_f32(v: &mut Vec<f32>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_f32(v: Vec<f32>) -> Vec<f32> { v }
fn at_f32(v: &Vec<f32>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_f32(v: &Vec<f32>) -> usize { v.len() }
fn make_f32(n: usize) -> Vec<f32> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as f32 }).collect() }

fn push_f64(v: &mut Vec<f64>, k: i32) { v.push(k as f64) }
fn pop_f64(v: &mut Vec<f64>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_f64(v: Vec<f64>) -> Vec<f64> { v }
fn at_f64(v: &Vec<f64>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_f64(v: &Vec<f64>) -> usize { v.len() }
fn make_f64(n: usize) -> Vec<f64> { (0..n as i32).map(|k| { let k = k % 3 + 1; k as f64 }).collect() }

fn push_bool(v: &mut Vec<bool>, k: i32) { v.push(k & 1 == 1) }
fn pop_bool(v: &mut Vec<bool>) -> i32 { let x = &v.pop().unwrap(); *x as i32 }
fn echo_bool(v: Vec<bool>) -> Vec<bool> { v }
fn at_bool(v: &Vec<bool>, i: usize) -> i32 { let x = &v[i]; *x as i32 }
fn len_bool(v: &Vec<bool>) -> usize { v.len() }
fn make_bool(n: usize) -> Vec<bool> { (0..n as i32).map(|k| { let k = k % 3 + 1; k & 1 == 1 }).collect() }

fn push_string(v: &mut Vec<String>, k: i32) { v.push(text(k).to_owned()) }
fn pop_string(v: &mut Vec<String>) -> i32 { let x = &v.pop().unwrap(); untext(x) }
fn echo_string(v: Vec<String>) -> Vec<String> { v }
fn at_string(v: &Vec<String>, i: usize) -> i32 { let x = &v[i]; untext(x) }
fn len_string(v: &Vec<String>) -> usize { v.len() }
fn make_string(n: usize) -> Vec<String> { (0..n as i32).map(|k| { let k = k % 3 + 1; text(k).to_owned() }).collect() }

fn push_sh(v: &mut Vec<ffi::Sh>, k: i32) { v.push(ffi::Sh { s: text(k).to_owned(), n: k }) }
fn pop_sh(v: &mut Vec<ffi::Sh>) -> i32 { let x = &v.pop().unwrap(); { assert_eq!(untext(&x.s), x.n); x.n } }
fn echo_sh(v: Vec<ffi::Sh>) -> Vec<ffi::Sh> { v }
fn at_sh(v: &Vec<ffi::Sh>, i: usize) -> i32 { let x = &v[i]; { assert_eq!(untext(&x.s), x.n); x.n } }
fn len_sh(v: &Vec<ffi::Sh>) -> usize { v.len() }
fn make_sh(n: usize) -> Vec<ffi::Sh> { (0..n as i32).map(|k| { let k = k % 3 + 1; ffi::Sh { s: text(k).to_owned(), n: k } }).collect() }

fn push_bx(v: &mut Vec<ffi::Bx>, k: i32) { v.push(ffi::Bx { b: Box::new(Op::new(k)), n: k }) }
fn pop_bx(v: &mut Vec<ffi::Bx>) -> i32 { let x = &v.pop().unwrap(); { assert_eq!(x.b.val(), x.n); x.n } }
fn echo_bx(v: Vec<ffi::Bx>) -> Vec<ffi::Bx> { v }
fn at_bx(v: &Vec<ffi::Bx>, i: usize) -> i32 { let x = &v[i]; { assert_eq!(x.b.val(), x.n); x.n } }
fn len_bx(v: &Vec<ffi::Bx>) -> usize { v.len() }
fn make_bx(n: usize) -> Vec<ffi::Bx> { (0..n as i32).map(|k| { let k = k % 3 + 1; ffi::Bx { b: Box::new(Op::new(k)), n: k } }).collect() }

fn push_en(v: &mut Vec<ffi::En>, k: i32) { v.push(ffi::En { repr: k as u16 }) }
fn pop_en(v: &mut Vec<ffi::En>) -> i32 { let x = &v.pop().unwrap(); x.repr as i32 }
fn echo_en(v: Vec<ffi::En>) -> Vec<ffi::En> { v }
fn at_en(v: &Vec<ffi::En>, i: usize) -> i32 { let x = &v[i]; x.repr as i32 }
fn len_en(v: &Vec<ffi::En>) -> usize { v.len() }
fn make_en(n: usize) -> Vec<ffi::En> { (0..n as i32).map(|k| { let k = k % 3 + 1; ffi::En { repr: k as u16 } }).collect() }

fn push_tracked(v: &mut Vec<Tracked>, k: i32) { v.push(Tracked::new(k)) }
fn pop_tracked(v: &mut Vec<Tracked>) -> i32 { let x = &v.pop().unwrap(); x.val }
fn echo_tracked(v: Vec<Tracked>) -> Vec<Tracked> { v }
fn at_tracked(v: &Vec<Tracked>, i: usize) -> i32 { let x = &v[i]; x.val }
fn len_tracked(v: &Vec<Tracked>) -> usize { v.len() }
fn make_tracked(n: usize) -> Vec<Tracked> { (0..n as i32).map(|k| { let k = k % 3 + 1; Tracked::new(k) }).collect() }

fn push_op(v: &mut Vec<Op>, k: i32) { v.push(Op::new(k)) }
fn pop_op(v: &mut Vec<Op>) -> i32 { let x = &v.pop().unwrap(); x.val() }
fn echo_op(v: Vec<Op>) -> Vec<Op> { v }
fn at_op(v: &Vec<Op>, i: usize) -> i32 { let x = &v[i]; x.val() }
fn len_op(v: &Vec<Op>) -> usize { v.len() }
fn make_op(n: usize) -> Vec<Op> { (0..n as i32).map(|k| { let k = k % 3 + 1; Op::new(k) }).collect() }

fn push_big(v: &mut Vec<Big>, k: i32) { v.push(Big::new(k)) }
fn pop_big(v: &mut Vec<Big>) -> i32 { let x = &v.pop().unwrap(); x.val() }
fn echo_big(v: Vec<Big>) -> Vec<Big> { v }
fn at_big(v: &Vec<Big>, i: usize) -> i32 { let x = &v[i]; x.val() }
fn len_big(v: &Vec<Big>) -> usize { v.len() }
fn make_big(n: usize) -> Vec<Big> { (0..n as i32).map(|k| { let k = k % 3 + 1; Big::new(k) }).collect() }
