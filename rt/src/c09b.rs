// Generated by gen_sig.py.
#![allow(clippy::all, unused_braces, static_mut_refs)]
use crate::engine::{rust_system, System};
use crate::ensure;
use core::ffi::c_char;
use core::pin::Pin;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use self::ffi::*;
static TXT: [&str; 4] = ["", "a", "h\u{e9}\0x", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\u{1F600}"];
#[unsafe(no_mangle)]
pub static mut vk_addr_c09b: usize = 0;
fn addr() -> usize { unsafe { vk_addr_c09b } }
fn note(a: usize) { unsafe { vk_addr_c09b = a } }
pub struct RObj { tag: i32, pad: String }
impl RObj {
    fn new(k: i32) -> Self { RObj { tag: k, pad: TXT[k as usize].to_owned() } }
    fn r_tag(&self) -> i32 { self.tag }
    fn r_set(&mut self, k: i32) { *self = RObj::new(k) }
}
fn r_new(k: i32) -> Box<RObj> { Box::new(RObj::new(k)) }
type R<T> = Result<T, String>;
#[cxx::bridge(namespace = "c09b")]
mod ffi {
    struct S3 { f0: f32, f1: f32 }
    struct S2 { f0: u8, f1: u8 }
    struct S7 { f0: String }
    extern "C++" { type TrivA = crate::c09b::TrivA; }
    #[repr(i8)] #[derive(Debug)] enum Ei8 { V0 = 0, V1 = 1, V2 = -128, V3 = 127 }
    #[repr(u8)] #[derive(Debug)] enum Eu8 { V0 = 0, V1 = 1, V2 = 128, V3 = 255 }
    unsafe extern "C++" {
        include!("rt/cc/c09b.hpp");
        type CObj;
        fn c_tag(self: &CObj) -> i32;
        fn c_set(self: Pin<&mut CObj>, k: i32);
        fn c_store_CObj(k: i32) -> UniquePtr<CObj>;
        fn c_store_CxxString(k: i32) -> UniquePtr<CxxString>;
        fn c_store_CxxVector_u8(k: i32) -> UniquePtr<CxxVector<u8>>;
        fn c_store_CxxVector_CxxString(k: i32) -> UniquePtr<CxxVector<CxxString>>;
        fn c_take_Box_RObj(x: Box<RObj>, k: i32) -> bool;
        fn c_make_Box_RObj(k: i32) -> Box<RObj>;
        fn c_try_Box_RObj(k: i32, fail: bool) -> Result<Box<RObj>>;
        fn c_echo_Box_RObj(x: Box<RObj>, k: i32) -> Box<RObj>;
        fn c_mix_Box_RObj(a: u8, x: Box<RObj>, b: f64, k: i32, y: Box<RObj>, c: u16) -> Result<bool>;
        fn c_m_Box_RObj(self: &CObj, x: Box<RObj>, k: i32) -> Box<RObj>;
        fn c_cb_Box_RObj(f: fn(Box<RObj>, i32) -> Box<RObj>, k: i32) -> bool;
        fn c_run_Box_RObj(pos: i32, k: i32) -> i32;
        fn c_take_Box_S2(x: Box<S2>, k: i32) -> bool;
        fn c_make_Box_S2(k: i32) -> Box<S2>;
        fn c_try_Box_S2(k: i32, fail: bool) -> Result<Box<S2>>;
        fn c_echo_Box_S2(x: Box<S2>, k: i32) -> Box<S2>;
        fn c_mix_Box_S2(a: u8, x: Box<S2>, b: f64, k: i32, y: Box<S2>, c: u16) -> Result<bool>;
        fn c_m_Box_S2(self: Pin<&mut CObj>, x: Box<S2>, k: i32) -> Box<S2>;
        fn c_cb_Box_S2(f: fn(Box<S2>, i32) -> Box<S2>, k: i32) -> bool;
        fn c_run_Box_S2(pos: i32, k: i32) -> i32;
        fn c_take_Box_S7(x: Box<S7>, k: i32) -> bool;
        fn c_make_Box_S7(k: i32) -> Box<S7>;
        fn c_try_Box_S7(k: i32, fail: bool) -> Result<Box<S7>>;
        fn c_echo_Box_S7(x: Box<S7>, k: i32) -> Box<S7>;
        fn c_mix_Box_S7(a: u8, x: Box<S7>, b: f64, k: i32, y: Box<S7>, c: u16) -> Result<bool>;
        fn c_m_Box_S7(self: &S3, x: Box<S7>, k: i32) -> Box<S7>;
        fn c_cb_Box_S7(f: fn(Box<S7>, i32) -> Box<S7>, k: i32) -> bool;
        fn c_run_Box_S7(pos: i32, k: i32) -> i32;
        fn c_take_Box_TrivA(x: Box<TrivA>, k: i32) -> bool;
        fn c_make_Box_TrivA(k: i32) -> Box<TrivA>;
        fn c_try_Box_TrivA(k: i32, fail: bool) -> Result<Box<TrivA>>;
        fn c_echo_Box_TrivA(x: Box<TrivA>, k: i32) -> Box<TrivA>;
        fn c_mix_Box_TrivA(a: u8, x: Box<TrivA>, b: f64, k: i32, y: Box<TrivA>, c: u16) -> Result<bool>;
        fn c_m_Box_TrivA(self: &mut S3, x: Box<TrivA>, k: i32) -> Box<TrivA>;
        fn c_cb_Box_TrivA(f: fn(Box<TrivA>, i32) -> Box<TrivA>, k: i32) -> bool;
        fn c_run_Box_TrivA(pos: i32, k: i32) -> i32;
        fn c_take_Vec_u8(x: Vec<u8>, k: i32) -> bool;
        fn c_make_Vec_u8(k: i32) -> Vec<u8>;
        fn c_try_Vec_u8(k: i32, fail: bool) -> Result<Vec<u8>>;
        fn c_echo_Vec_u8(x: Vec<u8>, k: i32) -> Vec<u8>;
        fn c_mix_Vec_u8(a: u8, x: Vec<u8>, b: f64, k: i32, y: Vec<u8>, c: u16) -> Result<bool>;
        fn c_m_Vec_u8(self: &CObj, x: Vec<u8>, k: i32) -> Vec<u8>;
        fn c_cb_Vec_u8(f: fn(Vec<u8>, i32) -> Vec<u8>, k: i32) -> bool;
        fn c_run_Vec_u8(pos: i32, k: i32) -> i32;
        fn c_take_Vec_i64(x: Vec<i64>, k: i32) -> bool;
        fn c_make_Vec_i64(k: i32) -> Vec<i64>;
        fn c_try_Vec_i64(k: i32, fail: bool) -> Result<Vec<i64>>;
        fn c_echo_Vec_i64(x: Vec<i64>, k: i32) -> Vec<i64>;
        fn c_mix_Vec_i64(a: u8, x: Vec<i64>, b: f64, k: i32, y: Vec<i64>, c: u16) -> Result<bool>;
        fn c_m_Vec_i64(self: Pin<&mut CObj>, x: Vec<i64>, k: i32) -> Vec<i64>;
        fn c_cb_Vec_i64(f: fn(Vec<i64>, i32) -> Vec<i64>, k: i32) -> bool;
        fn c_run_Vec_i64(pos: i32, k: i32) -> i32;
        fn c_take_Vec_bool(x: Vec<bool>, k: i32) -> bool;
        fn c_make_Vec_bool(k: i32) -> Vec<bool>;
        fn c_try_Vec_bool(k: i32, fail: bool) -> Result<Vec<bool>>;
        fn c_echo_Vec_bool(x: Vec<bool>, k: i32) -> Vec<bool>;
        fn c_mix_Vec_bool(a: u8, x: Vec<bool>, b: f64, k: i32, y: Vec<bool>, c: u16) -> Result<bool>;
        fn c_m_Vec_bool(self: &S3, x: Vec<bool>, k: i32) -> Vec<bool>;
        fn c_cb_Vec_bool(f: fn(Vec<bool>, i32) -> Vec<bool>, k: i32) -> bool;
        fn c_run_Vec_bool(pos: i32, k: i32) -> i32;
        fn c_take_Vec_f32(x: Vec<f32>, k: i32) -> bool;
        fn c_make_Vec_f32(k: i32) -> Vec<f32>;
        fn c_try_Vec_f32(k: i32, fail: bool) -> Result<Vec<f32>>;
        fn c_echo_Vec_f32(x: Vec<f32>, k: i32) -> Vec<f32>;
        fn c_mix_Vec_f32(a: u8, x: Vec<f32>, b: f64, k: i32, y: Vec<f32>, c: u16) -> Result<bool>;
        fn c_m_Vec_f32(self: &mut S3, x: Vec<f32>, k: i32) -> Vec<f32>;
        fn c_cb_Vec_f32(f: fn(Vec<f32>, i32) -> Vec<f32>, k: i32) -> bool;
        fn c_run_Vec_f32(pos: i32, k: i32) -> i32;
        fn c_take_Vec_usize(x: Vec<usize>, k: i32) -> bool;
        fn c_make_Vec_usize(k: i32) -> Vec<usize>;
        fn c_try_Vec_usize(k: i32, fail: bool) -> Result<Vec<usize>>;
        fn c_echo_Vec_usize(x: Vec<usize>, k: i32) -> Vec<usize>;
        fn c_mix_Vec_usize(a: u8, x: Vec<usize>, b: f64, k: i32, y: Vec<usize>, c: u16) -> Result<bool>;
        fn c_m_Vec_usize(self: &CObj, x: Vec<usize>, k: i32) -> Vec<usize>;
        fn c_cb_Vec_usize(f: fn(Vec<usize>, i32) -> Vec<usize>, k: i32) -> bool;
        fn c_run_Vec_usize(pos: i32, k: i32) -> i32;
        fn c_take_Vec_c_char(x: Vec<c_char>, k: i32) -> bool;
        fn c_make_Vec_c_char(k: i32) -> Vec<c_char>;
        fn c_try_Vec_c_char(k: i32, fail: bool) -> Result<Vec<c_char>>;
        fn c_echo_Vec_c_char(x: Vec<c_char>, k: i32) -> Vec<c_char>;
        fn c_mix_Vec_c_char(a: u8, x: Vec<c_char>, b: f64, k: i32, y: Vec<c_char>, c: u16) -> Result<bool>;
        fn c_m_Vec_c_char(self: Pin<&mut CObj>, x: Vec<c_char>, k: i32) -> Vec<c_char>;
        fn c_cb_Vec_c_char(f: fn(Vec<c_char>, i32) -> Vec<c_char>, k: i32) -> bool;
        fn c_run_Vec_c_char(pos: i32, k: i32) -> i32;
        fn c_take_Vec_String(x: Vec<String>, k: i32) -> bool;
        fn c_make_Vec_String(k: i32) -> Vec<String>;
        fn c_try_Vec_String(k: i32, fail: bool) -> Result<Vec<String>>;
        fn c_echo_Vec_String(x: Vec<String>, k: i32) -> Vec<String>;
        fn c_mix_Vec_String(a: u8, x: Vec<String>, b: f64, k: i32, y: Vec<String>, c: u16) -> Result<bool>;
        fn c_m_Vec_String(self: &S3, x: Vec<String>, k: i32) -> Vec<String>;
        fn c_cb_Vec_String(f: fn(Vec<String>, i32) -> Vec<String>, k: i32) -> bool;
        fn c_run_Vec_String(pos: i32, k: i32) -> i32;
        fn c_take_Vec_S2(x: Vec<S2>, k: i32) -> bool;
        fn c_make_Vec_S2(k: i32) -> Vec<S2>;
        fn c_try_Vec_S2(k: i32, fail: bool) -> Result<Vec<S2>>;
        fn c_echo_Vec_S2(x: Vec<S2>, k: i32) -> Vec<S2>;
        fn c_mix_Vec_S2(a: u8, x: Vec<S2>, b: f64, k: i32, y: Vec<S2>, c: u16) -> Result<bool>;
        fn c_m_Vec_S2(self: &mut S3, x: Vec<S2>, k: i32) -> Vec<S2>;
        fn c_cb_Vec_S2(f: fn(Vec<S2>, i32) -> Vec<S2>, k: i32) -> bool;
        fn c_run_Vec_S2(pos: i32, k: i32) -> i32;
        fn c_take_Vec_S7(x: Vec<S7>, k: i32) -> bool;
        fn c_make_Vec_S7(k: i32) -> Vec<S7>;
        fn c_try_Vec_S7(k: i32, fail: bool) -> Result<Vec<S7>>;
        fn c_echo_Vec_S7(x: Vec<S7>, k: i32) -> Vec<S7>;
        fn c_mix_Vec_S7(a: u8, x: Vec<S7>, b: f64, k: i32, y: Vec<S7>, c: u16) -> Result<bool>;
        fn c_m_Vec_S7(self: &CObj, x: Vec<S7>, k: i32) -> Vec<S7>;
        fn c_cb_Vec_S7(f: fn(Vec<S7>, i32) -> Vec<S7>, k: i32) -> bool;
        fn c_run_Vec_S7(pos: i32, k: i32) -> i32;
        fn c_take_Vec_RObj(x: Vec<RObj>, k: i32) -> bool;
        fn c_make_Vec_RObj(k: i32) -> Vec<RObj>;
        fn c_try_Vec_RObj(k: i32, fail: bool) -> Result<Vec<RObj>>;
        fn c_echo_Vec_RObj(x: Vec<RObj>, k: i32) -> Vec<RObj>;
        fn c_mix_Vec_RObj(a: u8, x: Vec<RObj>, b: f64, k: i32, y: Vec<RObj>, c: u16) -> Result<bool>;
        fn c_m_Vec_RObj(self: Pin<&mut CObj>, x: Vec<RObj>, k: i32) -> Vec<RObj>;
        fn c_cb_Vec_RObj(f: fn(Vec<RObj>, i32) -> Vec<RObj>, k: i32) -> bool;
        fn c_run_Vec_RObj(pos: i32, k: i32) -> i32;
        fn c_take_Vec_Ei8(x: Vec<Ei8>, k: i32) -> bool;
        fn c_make_Vec_Ei8(k: i32) -> Vec<Ei8>;
        fn c_try_Vec_Ei8(k: i32, fail: bool) -> Result<Vec<Ei8>>;
        fn c_echo_Vec_Ei8(x: Vec<Ei8>, k: i32) -> Vec<Ei8>;
        fn c_mix_Vec_Ei8(a: u8, x: Vec<Ei8>, b: f64, k: i32, y: Vec<Ei8>, c: u16) -> Result<bool>;
        fn c_m_Vec_Ei8(self: &S3, x: Vec<Ei8>, k: i32) -> Vec<Ei8>;
        fn c_cb_Vec_Ei8(f: fn(Vec<Ei8>, i32) -> Vec<Ei8>, k: i32) -> bool;
        fn c_run_Vec_Ei8(pos: i32, k: i32) -> i32;
        fn c_take_Vec_TrivA(x: Vec<TrivA>, k: i32) -> bool;
        fn c_make_Vec_TrivA(k: i32) -> Vec<TrivA>;
        fn c_try_Vec_TrivA(k: i32, fail: bool) -> Result<Vec<TrivA>>;
        fn c_echo_Vec_TrivA(x: Vec<TrivA>, k: i32) -> Vec<TrivA>;
        fn c_mix_Vec_TrivA(a: u8, x: Vec<TrivA>, b: f64, k: i32, y: Vec<TrivA>, c: u16) -> Result<bool>;
        fn c_m_Vec_TrivA(self: &mut S3, x: Vec<TrivA>, k: i32) -> Vec<TrivA>;
        fn c_cb_Vec_TrivA(f: fn(Vec<TrivA>, i32) -> Vec<TrivA>, k: i32) -> bool;
        fn c_run_Vec_TrivA(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> bool;
        fn c_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj>;
        fn c_try_UniquePtr_CObj(k: i32, fail: bool) -> Result<UniquePtr<CObj>>;
        fn c_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn c_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CObj(self: &CObj, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn c_cb_UniquePtr_CObj(f: fn(UniquePtr<CObj>, i32) -> UniquePtr<CObj>, k: i32) -> bool;
        fn c_run_UniquePtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_CxxString(x: UniquePtr<CxxString>, k: i32) -> bool;
        fn c_make_UniquePtr_CxxString(k: i32) -> UniquePtr<CxxString>;
        fn c_try_UniquePtr_CxxString(k: i32, fail: bool) -> Result<UniquePtr<CxxString>>;
        fn c_echo_UniquePtr_CxxString(x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString>;
        fn c_mix_UniquePtr_CxxString(a: u8, x: UniquePtr<CxxString>, b: f64, k: i32, y: UniquePtr<CxxString>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CxxString(self: Pin<&mut CObj>, x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString>;
        fn c_cb_UniquePtr_CxxString(f: fn(UniquePtr<CxxString>, i32) -> UniquePtr<CxxString>, k: i32) -> bool;
        fn c_run_UniquePtr_CxxString(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_S2(x: UniquePtr<S2>, k: i32) -> bool;
        fn c_make_UniquePtr_S2(k: i32) -> UniquePtr<S2>;
        fn c_try_UniquePtr_S2(k: i32, fail: bool) -> Result<UniquePtr<S2>>;
        fn c_echo_UniquePtr_S2(x: UniquePtr<S2>, k: i32) -> UniquePtr<S2>;
        fn c_mix_UniquePtr_S2(a: u8, x: UniquePtr<S2>, b: f64, k: i32, y: UniquePtr<S2>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_S2(self: &S3, x: UniquePtr<S2>, k: i32) -> UniquePtr<S2>;
        fn c_cb_UniquePtr_S2(f: fn(UniquePtr<S2>, i32) -> UniquePtr<S2>, k: i32) -> bool;
        fn c_run_UniquePtr_S2(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_S7(x: UniquePtr<S7>, k: i32) -> bool;
        fn c_make_UniquePtr_S7(k: i32) -> UniquePtr<S7>;
        fn c_try_UniquePtr_S7(k: i32, fail: bool) -> Result<UniquePtr<S7>>;
        fn c_echo_UniquePtr_S7(x: UniquePtr<S7>, k: i32) -> UniquePtr<S7>;
        fn c_mix_UniquePtr_S7(a: u8, x: UniquePtr<S7>, b: f64, k: i32, y: UniquePtr<S7>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_S7(self: &mut S3, x: UniquePtr<S7>, k: i32) -> UniquePtr<S7>;
        fn c_cb_UniquePtr_S7(f: fn(UniquePtr<S7>, i32) -> UniquePtr<S7>, k: i32) -> bool;
        fn c_run_UniquePtr_S7(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_TrivA(x: UniquePtr<TrivA>, k: i32) -> bool;
        fn c_make_UniquePtr_TrivA(k: i32) -> UniquePtr<TrivA>;
        fn c_try_UniquePtr_TrivA(k: i32, fail: bool) -> Result<UniquePtr<TrivA>>;
        fn c_echo_UniquePtr_TrivA(x: UniquePtr<TrivA>, k: i32) -> UniquePtr<TrivA>;
        fn c_mix_UniquePtr_TrivA(a: u8, x: UniquePtr<TrivA>, b: f64, k: i32, y: UniquePtr<TrivA>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_TrivA(self: &CObj, x: UniquePtr<TrivA>, k: i32) -> UniquePtr<TrivA>;
        fn c_cb_UniquePtr_TrivA(f: fn(UniquePtr<TrivA>, i32) -> UniquePtr<TrivA>, k: i32) -> bool;
        fn c_run_UniquePtr_TrivA(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_CxxVector_u16(x: UniquePtr<CxxVector<u16>>, k: i32) -> bool;
        fn c_make_UniquePtr_CxxVector_u16(k: i32) -> UniquePtr<CxxVector<u16>>;
        fn c_try_UniquePtr_CxxVector_u16(k: i32, fail: bool) -> Result<UniquePtr<CxxVector<u16>>>;
        fn c_echo_UniquePtr_CxxVector_u16(x: UniquePtr<CxxVector<u16>>, k: i32) -> UniquePtr<CxxVector<u16>>;
        fn c_mix_UniquePtr_CxxVector_u16(a: u8, x: UniquePtr<CxxVector<u16>>, b: f64, k: i32, y: UniquePtr<CxxVector<u16>>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CxxVector_u16(self: Pin<&mut CObj>, x: UniquePtr<CxxVector<u16>>, k: i32) -> UniquePtr<CxxVector<u16>>;
        fn c_cb_UniquePtr_CxxVector_u16(f: fn(UniquePtr<CxxVector<u16>>, i32) -> UniquePtr<CxxVector<u16>>, k: i32) -> bool;
        fn c_run_UniquePtr_CxxVector_u16(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_CxxVector_CxxString(x: UniquePtr<CxxVector<CxxString>>, k: i32) -> bool;
        fn c_make_UniquePtr_CxxVector_CxxString(k: i32) -> UniquePtr<CxxVector<CxxString>>;
        fn c_try_UniquePtr_CxxVector_CxxString(k: i32, fail: bool) -> Result<UniquePtr<CxxVector<CxxString>>>;
        fn c_echo_UniquePtr_CxxVector_CxxString(x: UniquePtr<CxxVector<CxxString>>, k: i32) -> UniquePtr<CxxVector<CxxString>>;
        fn c_mix_UniquePtr_CxxVector_CxxString(a: u8, x: UniquePtr<CxxVector<CxxString>>, b: f64, k: i32, y: UniquePtr<CxxVector<CxxString>>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CxxVector_CxxString(self: &S3, x: UniquePtr<CxxVector<CxxString>>, k: i32) -> UniquePtr<CxxVector<CxxString>>;
        fn c_cb_UniquePtr_CxxVector_CxxString(f: fn(UniquePtr<CxxVector<CxxString>>, i32) -> UniquePtr<CxxVector<CxxString>>, k: i32) -> bool;
        fn c_run_UniquePtr_CxxVector_CxxString(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_CxxVector_CObj(x: UniquePtr<CxxVector<CObj>>, k: i32) -> bool;
        fn c_make_UniquePtr_CxxVector_CObj(k: i32) -> UniquePtr<CxxVector<CObj>>;
        fn c_try_UniquePtr_CxxVector_CObj(k: i32, fail: bool) -> Result<UniquePtr<CxxVector<CObj>>>;
        fn c_echo_UniquePtr_CxxVector_CObj(x: UniquePtr<CxxVector<CObj>>, k: i32) -> UniquePtr<CxxVector<CObj>>;
        fn c_mix_UniquePtr_CxxVector_CObj(a: u8, x: UniquePtr<CxxVector<CObj>>, b: f64, k: i32, y: UniquePtr<CxxVector<CObj>>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CxxVector_CObj(self: &mut S3, x: UniquePtr<CxxVector<CObj>>, k: i32) -> UniquePtr<CxxVector<CObj>>;
        fn c_cb_UniquePtr_CxxVector_CObj(f: fn(UniquePtr<CxxVector<CObj>>, i32) -> UniquePtr<CxxVector<CObj>>, k: i32) -> bool;
        fn c_run_UniquePtr_CxxVector_CObj(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_CxxVector_S7(x: UniquePtr<CxxVector<S7>>, k: i32) -> bool;
        fn c_make_UniquePtr_CxxVector_S7(k: i32) -> UniquePtr<CxxVector<S7>>;
        fn c_try_UniquePtr_CxxVector_S7(k: i32, fail: bool) -> Result<UniquePtr<CxxVector<S7>>>;
        fn c_echo_UniquePtr_CxxVector_S7(x: UniquePtr<CxxVector<S7>>, k: i32) -> UniquePtr<CxxVector<S7>>;
        fn c_mix_UniquePtr_CxxVector_S7(a: u8, x: UniquePtr<CxxVector<S7>>, b: f64, k: i32, y: UniquePtr<CxxVector<S7>>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CxxVector_S7(self: &CObj, x: UniquePtr<CxxVector<S7>>, k: i32) -> UniquePtr<CxxVector<S7>>;
        fn c_cb_UniquePtr_CxxVector_S7(f: fn(UniquePtr<CxxVector<S7>>, i32) -> UniquePtr<CxxVector<S7>>, k: i32) -> bool;
        fn c_run_UniquePtr_CxxVector_S7(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_CxxVector_f64(x: UniquePtr<CxxVector<f64>>, k: i32) -> bool;
        fn c_make_UniquePtr_CxxVector_f64(k: i32) -> UniquePtr<CxxVector<f64>>;
        fn c_try_UniquePtr_CxxVector_f64(k: i32, fail: bool) -> Result<UniquePtr<CxxVector<f64>>>;
        fn c_echo_UniquePtr_CxxVector_f64(x: UniquePtr<CxxVector<f64>>, k: i32) -> UniquePtr<CxxVector<f64>>;
        fn c_mix_UniquePtr_CxxVector_f64(a: u8, x: UniquePtr<CxxVector<f64>>, b: f64, k: i32, y: UniquePtr<CxxVector<f64>>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CxxVector_f64(self: Pin<&mut CObj>, x: UniquePtr<CxxVector<f64>>, k: i32) -> UniquePtr<CxxVector<f64>>;
        fn c_cb_UniquePtr_CxxVector_f64(f: fn(UniquePtr<CxxVector<f64>>, i32) -> UniquePtr<CxxVector<f64>>, k: i32) -> bool;
        fn c_run_UniquePtr_CxxVector_f64(pos: i32, k: i32) -> i32;
        fn c_take_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> bool;
        fn c_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj>;
        fn c_try_SharedPtr_CObj(k: i32, fail: bool) -> Result<SharedPtr<CObj>>;
        fn c_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn c_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_SharedPtr_CObj(self: &S3, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn c_cb_SharedPtr_CObj(f: fn(SharedPtr<CObj>, i32) -> SharedPtr<CObj>, k: i32) -> bool;
        fn c_run_SharedPtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_SharedPtr_CxxString(x: SharedPtr<CxxString>, k: i32) -> bool;
        fn c_make_SharedPtr_CxxString(k: i32) -> SharedPtr<CxxString>;
        fn c_try_SharedPtr_CxxString(k: i32, fail: bool) -> Result<SharedPtr<CxxString>>;
        fn c_echo_SharedPtr_CxxString(x: SharedPtr<CxxString>, k: i32) -> SharedPtr<CxxString>;
        fn c_mix_SharedPtr_CxxString(a: u8, x: SharedPtr<CxxString>, b: f64, k: i32, y: SharedPtr<CxxString>, c: u16) -> Result<bool>;
        fn c_m_SharedPtr_CxxString(self: &mut S3, x: SharedPtr<CxxString>, k: i32) -> SharedPtr<CxxString>;
        fn c_cb_SharedPtr_CxxString(f: fn(SharedPtr<CxxString>, i32) -> SharedPtr<CxxString>, k: i32) -> bool;
        fn c_run_SharedPtr_CxxString(pos: i32, k: i32) -> i32;
        fn c_take_SharedPtr_u32(x: SharedPtr<u32>, k: i32) -> bool;
        fn c_make_SharedPtr_u32(k: i32) -> SharedPtr<u32>;
        fn c_try_SharedPtr_u32(k: i32, fail: bool) -> Result<SharedPtr<u32>>;
        fn c_echo_SharedPtr_u32(x: SharedPtr<u32>, k: i32) -> SharedPtr<u32>;
        fn c_mix_SharedPtr_u32(a: u8, x: SharedPtr<u32>, b: f64, k: i32, y: SharedPtr<u32>, c: u16) -> Result<bool>;
        fn c_m_SharedPtr_u32(self: &CObj, x: SharedPtr<u32>, k: i32) -> SharedPtr<u32>;
        fn c_cb_SharedPtr_u32(f: fn(SharedPtr<u32>, i32) -> SharedPtr<u32>, k: i32) -> bool;
        fn c_run_SharedPtr_u32(pos: i32, k: i32) -> i32;
        fn c_take_SharedPtr_bool(x: SharedPtr<bool>, k: i32) -> bool;
        fn c_make_SharedPtr_bool(k: i32) -> SharedPtr<bool>;
        fn c_try_SharedPtr_bool(k: i32, fail: bool) -> Result<SharedPtr<bool>>;
        fn c_echo_SharedPtr_bool(x: SharedPtr<bool>, k: i32) -> SharedPtr<bool>;
        fn c_mix_SharedPtr_bool(a: u8, x: SharedPtr<bool>, b: f64, k: i32, y: SharedPtr<bool>, c: u16) -> Result<bool>;
        fn c_m_SharedPtr_bool(self: Pin<&mut CObj>, x: SharedPtr<bool>, k: i32) -> SharedPtr<bool>;
        fn c_cb_SharedPtr_bool(f: fn(SharedPtr<bool>, i32) -> SharedPtr<bool>, k: i32) -> bool;
        fn c_run_SharedPtr_bool(pos: i32, k: i32) -> i32;
        fn c_take_SharedPtr_f64(x: SharedPtr<f64>, k: i32) -> bool;
        fn c_make_SharedPtr_f64(k: i32) -> SharedPtr<f64>;
        fn c_try_SharedPtr_f64(k: i32, fail: bool) -> Result<SharedPtr<f64>>;
        fn c_echo_SharedPtr_f64(x: SharedPtr<f64>, k: i32) -> SharedPtr<f64>;
        fn c_mix_SharedPtr_f64(a: u8, x: SharedPtr<f64>, b: f64, k: i32, y: SharedPtr<f64>, c: u16) -> Result<bool>;
        fn c_m_SharedPtr_f64(self: &S3, x: SharedPtr<f64>, k: i32) -> SharedPtr<f64>;
        fn c_cb_SharedPtr_f64(f: fn(SharedPtr<f64>, i32) -> SharedPtr<f64>, k: i32) -> bool;
        fn c_run_SharedPtr_f64(pos: i32, k: i32) -> i32;
        fn c_take_SharedPtr_S7(x: SharedPtr<S7>, k: i32) -> bool;
        fn c_make_SharedPtr_S7(k: i32) -> SharedPtr<S7>;
        fn c_try_SharedPtr_S7(k: i32, fail: bool) -> Result<SharedPtr<S7>>;
        fn c_echo_SharedPtr_S7(x: SharedPtr<S7>, k: i32) -> SharedPtr<S7>;
        fn c_mix_SharedPtr_S7(a: u8, x: SharedPtr<S7>, b: f64, k: i32, y: SharedPtr<S7>, c: u16) -> Result<bool>;
        fn c_m_SharedPtr_S7(self: &mut S3, x: SharedPtr<S7>, k: i32) -> SharedPtr<S7>;
        fn c_cb_SharedPtr_S7(f: fn(SharedPtr<S7>, i32) -> SharedPtr<S7>, k: i32) -> bool;
        fn c_run_SharedPtr_S7(pos: i32, k: i32) -> i32;
        fn c_take_SharedPtr_TrivA(x: SharedPtr<TrivA>, k: i32) -> bool;
        fn c_make_SharedPtr_TrivA(k: i32) -> SharedPtr<TrivA>;
        fn c_try_SharedPtr_TrivA(k: i32, fail: bool) -> Result<SharedPtr<TrivA>>;
        fn c_echo_SharedPtr_TrivA(x: SharedPtr<TrivA>, k: i32) -> SharedPtr<TrivA>;
        fn c_mix_SharedPtr_TrivA(a: u8, x: SharedPtr<TrivA>, b: f64, k: i32, y: SharedPtr<TrivA>, c: u16) -> Result<bool>;
        fn c_m_SharedPtr_TrivA(self: &CObj, x: SharedPtr<TrivA>, k: i32) -> SharedPtr<TrivA>;
        fn c_cb_SharedPtr_TrivA(f: fn(SharedPtr<TrivA>, i32) -> SharedPtr<TrivA>, k: i32) -> bool;
        fn c_run_SharedPtr_TrivA(pos: i32, k: i32) -> i32;
        fn c_take_WeakPtr_CObj(x: WeakPtr<CObj>, k: i32) -> bool;
        fn c_make_WeakPtr_CObj(k: i32) -> WeakPtr<CObj>;
        fn c_try_WeakPtr_CObj(k: i32, fail: bool) -> Result<WeakPtr<CObj>>;
        fn c_echo_WeakPtr_CObj(x: WeakPtr<CObj>, k: i32) -> WeakPtr<CObj>;
        fn c_mix_WeakPtr_CObj(a: u8, x: WeakPtr<CObj>, b: f64, k: i32, y: WeakPtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_WeakPtr_CObj(self: Pin<&mut CObj>, x: WeakPtr<CObj>, k: i32) -> WeakPtr<CObj>;
        fn c_cb_WeakPtr_CObj(f: fn(WeakPtr<CObj>, i32) -> WeakPtr<CObj>, k: i32) -> bool;
        fn c_run_WeakPtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_WeakPtr_CxxString(x: WeakPtr<CxxString>, k: i32) -> bool;
        fn c_make_WeakPtr_CxxString(k: i32) -> WeakPtr<CxxString>;
        fn c_try_WeakPtr_CxxString(k: i32, fail: bool) -> Result<WeakPtr<CxxString>>;
        fn c_echo_WeakPtr_CxxString(x: WeakPtr<CxxString>, k: i32) -> WeakPtr<CxxString>;
        fn c_mix_WeakPtr_CxxString(a: u8, x: WeakPtr<CxxString>, b: f64, k: i32, y: WeakPtr<CxxString>, c: u16) -> Result<bool>;
        fn c_m_WeakPtr_CxxString(self: &S3, x: WeakPtr<CxxString>, k: i32) -> WeakPtr<CxxString>;
        fn c_cb_WeakPtr_CxxString(f: fn(WeakPtr<CxxString>, i32) -> WeakPtr<CxxString>, k: i32) -> bool;
        fn c_run_WeakPtr_CxxString(pos: i32, k: i32) -> i32;
        fn c_take_WeakPtr_i64(x: WeakPtr<i64>, k: i32) -> bool;
        fn c_make_WeakPtr_i64(k: i32) -> WeakPtr<i64>;
        fn c_try_WeakPtr_i64(k: i32, fail: bool) -> Result<WeakPtr<i64>>;
        fn c_echo_WeakPtr_i64(x: WeakPtr<i64>, k: i32) -> WeakPtr<i64>;
        fn c_mix_WeakPtr_i64(a: u8, x: WeakPtr<i64>, b: f64, k: i32, y: WeakPtr<i64>, c: u16) -> Result<bool>;
        fn c_m_WeakPtr_i64(self: &mut S3, x: WeakPtr<i64>, k: i32) -> WeakPtr<i64>;
        fn c_cb_WeakPtr_i64(f: fn(WeakPtr<i64>, i32) -> WeakPtr<i64>, k: i32) -> bool;
        fn c_run_WeakPtr_i64(pos: i32, k: i32) -> i32;
        fn c_take_WeakPtr_S2(x: WeakPtr<S2>, k: i32) -> bool;
        fn c_make_WeakPtr_S2(k: i32) -> WeakPtr<S2>;
        fn c_try_WeakPtr_S2(k: i32, fail: bool) -> Result<WeakPtr<S2>>;
        fn c_echo_WeakPtr_S2(x: WeakPtr<S2>, k: i32) -> WeakPtr<S2>;
        fn c_mix_WeakPtr_S2(a: u8, x: WeakPtr<S2>, b: f64, k: i32, y: WeakPtr<S2>, c: u16) -> Result<bool>;
        fn c_m_WeakPtr_S2(self: &CObj, x: WeakPtr<S2>, k: i32) -> WeakPtr<S2>;
        fn c_cb_WeakPtr_S2(f: fn(WeakPtr<S2>, i32) -> WeakPtr<S2>, k: i32) -> bool;
        fn c_run_WeakPtr_S2(pos: i32, k: i32) -> i32;
        fn c_take_ref_u8(x: &u8, k: i32) -> bool;
        fn c_make_ref_u8(z: &u8, k: i32) -> &u8;
        fn c_try_ref_u8(z: &u8, k: i32, fail: bool) -> Result<&u8>;
        fn c_echo_ref_u8(x: &u8, k: i32) -> &u8;
        fn c_mix_ref_u8(a: u8, x: &u8, b: f64, k: i32, y: &u8, c: u16) -> Result<bool>;
        fn c_m_ref_u8(self: Pin<&mut CObj>, x: &u8, k: i32) -> bool;
        fn c_cb_ref_u8(f: fn(&u8, i32) -> &u8, k: i32) -> bool;
        fn c_run_ref_u8(pos: i32, k: i32) -> i32;
        fn c_take_ref_u64(x: &u64, k: i32) -> bool;
        fn c_make_ref_u64(z: &u8, k: i32) -> &u64;
        fn c_try_ref_u64(z: &u8, k: i32, fail: bool) -> Result<&u64>;
        fn c_echo_ref_u64(x: &u64, k: i32) -> &u64;
        fn c_mix_ref_u64(a: u8, x: &u64, b: f64, k: i32, y: &u64, c: u16) -> Result<bool>;
        fn c_m_ref_u64(self: &S3, x: &u64, k: i32) -> bool;
        fn c_cb_ref_u64(f: fn(&u64, i32) -> &u64, k: i32) -> bool;
        fn c_run_ref_u64(pos: i32, k: i32) -> i32;
        fn c_take_ref_f64(x: &f64, k: i32) -> bool;
        fn c_make_ref_f64(z: &u8, k: i32) -> &f64;
        fn c_try_ref_f64(z: &u8, k: i32, fail: bool) -> Result<&f64>;
        fn c_echo_ref_f64(x: &f64, k: i32) -> &f64;
        fn c_mix_ref_f64(a: u8, x: &f64, b: f64, k: i32, y: &f64, c: u16) -> Result<bool>;
        fn c_m_ref_f64(self: &mut S3, x: &f64, k: i32) -> bool;
        fn c_cb_ref_f64(f: fn(&f64, i32) -> &f64, k: i32) -> bool;
        fn c_run_ref_f64(pos: i32, k: i32) -> i32;
        fn c_take_ref_bool(x: &bool, k: i32) -> bool;
        fn c_make_ref_bool(z: &u8, k: i32) -> &bool;
        fn c_try_ref_bool(z: &u8, k: i32, fail: bool) -> Result<&bool>;
        fn c_echo_ref_bool(x: &bool, k: i32) -> &bool;
        fn c_mix_ref_bool(a: u8, x: &bool, b: f64, k: i32, y: &bool, c: u16) -> Result<bool>;
        fn c_m_ref_bool(self: &CObj, x: &bool, k: i32) -> bool;
        fn c_cb_ref_bool(f: fn(&bool, i32) -> &bool, k: i32) -> bool;
        fn c_run_ref_bool(pos: i32, k: i32) -> i32;
        fn c_take_ref_String(x: &String, k: i32) -> bool;
        fn c_make_ref_String(z: &u8, k: i32) -> &String;
        fn c_try_ref_String(z: &u8, k: i32, fail: bool) -> Result<&String>;
        fn c_echo_ref_String(x: &String, k: i32) -> &String;
        fn c_mix_ref_String(a: u8, x: &String, b: f64, k: i32, y: &String, c: u16) -> Result<bool>;
        fn c_m_ref_String(self: Pin<&mut CObj>, x: &String, k: i32) -> bool;
        fn c_cb_ref_String(f: fn(&String, i32) -> &String, k: i32) -> bool;
        fn c_run_ref_String(pos: i32, k: i32) -> i32;
        fn c_take_ref_S2(x: &S2, k: i32) -> bool;
        fn c_make_ref_S2(z: &u8, k: i32) -> &S2;
        fn c_try_ref_S2(z: &u8, k: i32, fail: bool) -> Result<&S2>;
        fn c_echo_ref_S2(x: &S2, k: i32) -> &S2;
        fn c_mix_ref_S2(a: u8, x: &S2, b: f64, k: i32, y: &S2, c: u16) -> Result<bool>;
        fn c_m_ref_S2(self: &S3, x: &S2, k: i32) -> bool;
        fn c_cb_ref_S2(f: fn(&S2, i32) -> &S2, k: i32) -> bool;
        fn c_run_ref_S2(pos: i32, k: i32) -> i32;
        fn c_take_ref_S7(x: &S7, k: i32) -> bool;
        fn c_make_ref_S7(z: &u8, k: i32) -> &S7;
        fn c_try_ref_S7(z: &u8, k: i32, fail: bool) -> Result<&S7>;
        fn c_echo_ref_S7(x: &S7, k: i32) -> &S7;
        fn c_mix_ref_S7(a: u8, x: &S7, b: f64, k: i32, y: &S7, c: u16) -> Result<bool>;
        fn c_m_ref_S7(self: &mut S3, x: &S7, k: i32) -> bool;
        fn c_cb_ref_S7(f: fn(&S7, i32) -> &S7, k: i32) -> bool;
        fn c_run_ref_S7(pos: i32, k: i32) -> i32;
        fn c_take_ref_RObj(x: &RObj, k: i32) -> bool;
        fn c_make_ref_RObj(z: &u8, k: i32) -> &RObj;
        fn c_try_ref_RObj(z: &u8, k: i32, fail: bool) -> Result<&RObj>;
        fn c_echo_ref_RObj(x: &RObj, k: i32) -> &RObj;
        fn c_mix_ref_RObj(a: u8, x: &RObj, b: f64, k: i32, y: &RObj, c: u16) -> Result<bool>;
        fn c_m_ref_RObj(self: &CObj, x: &RObj, k: i32) -> bool;
        fn c_cb_ref_RObj(f: fn(&RObj, i32) -> &RObj, k: i32) -> bool;
        fn c_run_ref_RObj(pos: i32, k: i32) -> i32;
        fn c_take_ref_CObj(x: &CObj, k: i32) -> bool;
        fn c_make_ref_CObj(z: &u8, k: i32) -> &CObj;
        fn c_try_ref_CObj(z: &u8, k: i32, fail: bool) -> Result<&CObj>;
        fn c_echo_ref_CObj(x: &CObj, k: i32) -> &CObj;
        fn c_mix_ref_CObj(a: u8, x: &CObj, b: f64, k: i32, y: &CObj, c: u16) -> Result<bool>;
        fn c_m_ref_CObj(self: Pin<&mut CObj>, x: &CObj, k: i32) -> bool;
        fn c_cb_ref_CObj(f: fn(&CObj, i32) -> &CObj, k: i32) -> bool;
        fn c_run_ref_CObj(pos: i32, k: i32) -> i32;
        fn c_take_ref_CxxString(x: &CxxString, k: i32) -> bool;
        fn c_make_ref_CxxString(z: &u8, k: i32) -> &CxxString;
        fn c_try_ref_CxxString(z: &u8, k: i32, fail: bool) -> Result<&CxxString>;
        fn c_echo_ref_CxxString(x: &CxxString, k: i32) -> &CxxString;
        fn c_mix_ref_CxxString(a: u8, x: &CxxString, b: f64, k: i32, y: &CxxString, c: u16) -> Result<bool>;
        fn c_m_ref_CxxString(self: &S3, x: &CxxString, k: i32) -> bool;
        fn c_cb_ref_CxxString(f: fn(&CxxString, i32) -> &CxxString, k: i32) -> bool;
        fn c_run_ref_CxxString(pos: i32, k: i32) -> i32;
        fn c_take_ref_CxxVector_u8(x: &CxxVector<u8>, k: i32) -> bool;
        fn c_make_ref_CxxVector_u8(z: &u8, k: i32) -> &CxxVector<u8>;
        fn c_try_ref_CxxVector_u8(z: &u8, k: i32, fail: bool) -> Result<&CxxVector<u8>>;
        fn c_echo_ref_CxxVector_u8(x: &CxxVector<u8>, k: i32) -> &CxxVector<u8>;
        fn c_mix_ref_CxxVector_u8(a: u8, x: &CxxVector<u8>, b: f64, k: i32, y: &CxxVector<u8>, c: u16) -> Result<bool>;
        fn c_m_ref_CxxVector_u8(self: &mut S3, x: &CxxVector<u8>, k: i32) -> bool;
        fn c_cb_ref_CxxVector_u8(f: fn(&CxxVector<u8>, i32) -> &CxxVector<u8>, k: i32) -> bool;
        fn c_run_ref_CxxVector_u8(pos: i32, k: i32) -> i32;
        fn c_take_ref_CxxVector_CxxString(x: &CxxVector<CxxString>, k: i32) -> bool;
        fn c_make_ref_CxxVector_CxxString(z: &u8, k: i32) -> &CxxVector<CxxString>;
        fn c_try_ref_CxxVector_CxxString(z: &u8, k: i32, fail: bool) -> Result<&CxxVector<CxxString>>;
        fn c_echo_ref_CxxVector_CxxString(x: &CxxVector<CxxString>, k: i32) -> &CxxVector<CxxString>;
        fn c_mix_ref_CxxVector_CxxString(a: u8, x: &CxxVector<CxxString>, b: f64, k: i32, y: &CxxVector<CxxString>, c: u16) -> Result<bool>;
        fn c_m_ref_CxxVector_CxxString(self: &CObj, x: &CxxVector<CxxString>, k: i32) -> bool;
        fn c_cb_ref_CxxVector_CxxString(f: fn(&CxxVector<CxxString>, i32) -> &CxxVector<CxxString>, k: i32) -> bool;
        fn c_run_ref_CxxVector_CxxString(pos: i32, k: i32) -> i32;
        fn c_take_ref_Vec_u8(x: &Vec<u8>, k: i32) -> bool;
        fn c_make_ref_Vec_u8(z: &u8, k: i32) -> &Vec<u8>;
        fn c_try_ref_Vec_u8(z: &u8, k: i32, fail: bool) -> Result<&Vec<u8>>;
        fn c_echo_ref_Vec_u8(x: &Vec<u8>, k: i32) -> &Vec<u8>;
        fn c_mix_ref_Vec_u8(a: u8, x: &Vec<u8>, b: f64, k: i32, y: &Vec<u8>, c: u16) -> Result<bool>;
        fn c_m_ref_Vec_u8(self: Pin<&mut CObj>, x: &Vec<u8>, k: i32) -> bool;
        fn c_cb_ref_Vec_u8(f: fn(&Vec<u8>, i32) -> &Vec<u8>, k: i32) -> bool;
        fn c_run_ref_Vec_u8(pos: i32, k: i32) -> i32;
        fn c_take_ref_Vec_String(x: &Vec<String>, k: i32) -> bool;
        fn c_make_ref_Vec_String(z: &u8, k: i32) -> &Vec<String>;
        fn c_try_ref_Vec_String(z: &u8, k: i32, fail: bool) -> Result<&Vec<String>>;
        fn c_echo_ref_Vec_String(x: &Vec<String>, k: i32) -> &Vec<String>;
        fn c_mix_ref_Vec_String(a: u8, x: &Vec<String>, b: f64, k: i32, y: &Vec<String>, c: u16) -> Result<bool>;
        fn c_m_ref_Vec_String(self: &S3, x: &Vec<String>, k: i32) -> bool;
        fn c_cb_ref_Vec_String(f: fn(&Vec<String>, i32) -> &Vec<String>, k: i32) -> bool;
        fn c_run_ref_Vec_String(pos: i32, k: i32) -> i32;
        fn c_take_ref_Vec_RObj(x: &Vec<RObj>, k: i32) -> bool;
        fn c_make_ref_Vec_RObj(z: &u8, k: i32) -> &Vec<RObj>;
        fn c_try_ref_Vec_RObj(z: &u8, k: i32, fail: bool) -> Result<&Vec<RObj>>;
        fn c_echo_ref_Vec_RObj(x: &Vec<RObj>, k: i32) -> &Vec<RObj>;
        fn c_mix_ref_Vec_RObj(a: u8, x: &Vec<RObj>, b: f64, k: i32, y: &Vec<RObj>, c: u16) -> Result<bool>;
        fn c_m_ref_Vec_RObj(self: &mut S3, x: &Vec<RObj>, k: i32) -> bool;
        fn c_cb_ref_Vec_RObj(f: fn(&Vec<RObj>, i32) -> &Vec<RObj>, k: i32) -> bool;
        fn c_run_ref_Vec_RObj(pos: i32, k: i32) -> i32;
        fn c_take_ref_Box_RObj(x: &Box<RObj>, k: i32) -> bool;
        fn c_make_ref_Box_RObj(z: &u8, k: i32) -> &Box<RObj>;
        fn c_try_ref_Box_RObj(z: &u8, k: i32, fail: bool) -> Result<&Box<RObj>>;
        fn c_echo_ref_Box_RObj(x: &Box<RObj>, k: i32) -> &Box<RObj>;
        fn c_mix_ref_Box_RObj(a: u8, x: &Box<RObj>, b: f64, k: i32, y: &Box<RObj>, c: u16) -> Result<bool>;
        fn c_m_ref_Box_RObj(self: &CObj, x: &Box<RObj>, k: i32) -> bool;
        fn c_cb_ref_Box_RObj(f: fn(&Box<RObj>, i32) -> &Box<RObj>, k: i32) -> bool;
        fn c_run_ref_Box_RObj(pos: i32, k: i32) -> i32;
        fn c_take_ref_UniquePtr_CObj(x: &UniquePtr<CObj>, k: i32) -> bool;
        fn c_make_ref_UniquePtr_CObj(z: &u8, k: i32) -> &UniquePtr<CObj>;
        fn c_try_ref_UniquePtr_CObj(z: &u8, k: i32, fail: bool) -> Result<&UniquePtr<CObj>>;
        fn c_echo_ref_UniquePtr_CObj(x: &UniquePtr<CObj>, k: i32) -> &UniquePtr<CObj>;
        fn c_mix_ref_UniquePtr_CObj(a: u8, x: &UniquePtr<CObj>, b: f64, k: i32, y: &UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_ref_UniquePtr_CObj(self: Pin<&mut CObj>, x: &UniquePtr<CObj>, k: i32) -> bool;
        fn c_cb_ref_UniquePtr_CObj(f: fn(&UniquePtr<CObj>, i32) -> &UniquePtr<CObj>, k: i32) -> bool;
        fn c_run_ref_UniquePtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_ref_SharedPtr_CObj(x: &SharedPtr<CObj>, k: i32) -> bool;
        fn c_make_ref_SharedPtr_CObj(z: &u8, k: i32) -> &SharedPtr<CObj>;
        fn c_try_ref_SharedPtr_CObj(z: &u8, k: i32, fail: bool) -> Result<&SharedPtr<CObj>>;
        fn c_echo_ref_SharedPtr_CObj(x: &SharedPtr<CObj>, k: i32) -> &SharedPtr<CObj>;
        fn c_mix_ref_SharedPtr_CObj(a: u8, x: &SharedPtr<CObj>, b: f64, k: i32, y: &SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_ref_SharedPtr_CObj(self: &S3, x: &SharedPtr<CObj>, k: i32) -> bool;
        fn c_cb_ref_SharedPtr_CObj(f: fn(&SharedPtr<CObj>, i32) -> &SharedPtr<CObj>, k: i32) -> bool;
        fn c_run_ref_SharedPtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_ref_WeakPtr_CObj(x: &WeakPtr<CObj>, k: i32) -> bool;
        fn c_make_ref_WeakPtr_CObj(z: &u8, k: i32) -> &WeakPtr<CObj>;
        fn c_try_ref_WeakPtr_CObj(z: &u8, k: i32, fail: bool) -> Result<&WeakPtr<CObj>>;
        fn c_echo_ref_WeakPtr_CObj(x: &WeakPtr<CObj>, k: i32) -> &WeakPtr<CObj>;
        fn c_mix_ref_WeakPtr_CObj(a: u8, x: &WeakPtr<CObj>, b: f64, k: i32, y: &WeakPtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_ref_WeakPtr_CObj(self: &mut S3, x: &WeakPtr<CObj>, k: i32) -> bool;
        fn c_cb_ref_WeakPtr_CObj(f: fn(&WeakPtr<CObj>, i32) -> &WeakPtr<CObj>, k: i32) -> bool;
        fn c_run_ref_WeakPtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_ref_Eu8(x: &Eu8, k: i32) -> bool;
        fn c_make_ref_Eu8(z: &u8, k: i32) -> &Eu8;
        fn c_try_ref_Eu8(z: &u8, k: i32, fail: bool) -> Result<&Eu8>;
        fn c_echo_ref_Eu8(x: &Eu8, k: i32) -> &Eu8;
        fn c_mix_ref_Eu8(a: u8, x: &Eu8, b: f64, k: i32, y: &Eu8, c: u16) -> Result<bool>;
        fn c_m_ref_Eu8(self: &CObj, x: &Eu8, k: i32) -> bool;
        fn c_cb_ref_Eu8(f: fn(&Eu8, i32) -> &Eu8, k: i32) -> bool;
        fn c_run_ref_Eu8(pos: i32, k: i32) -> i32;
        fn c_take_ref_TrivA(x: &TrivA, k: i32) -> bool;
        fn c_make_ref_TrivA(z: &u8, k: i32) -> &TrivA;
        fn c_try_ref_TrivA(z: &u8, k: i32, fail: bool) -> Result<&TrivA>;
        fn c_echo_ref_TrivA(x: &TrivA, k: i32) -> &TrivA;
        fn c_mix_ref_TrivA(a: u8, x: &TrivA, b: f64, k: i32, y: &TrivA, c: u16) -> Result<bool>;
        fn c_m_ref_TrivA(self: Pin<&mut CObj>, x: &TrivA, k: i32) -> bool;
        fn c_cb_ref_TrivA(f: fn(&TrivA, i32) -> &TrivA, k: i32) -> bool;
        fn c_run_ref_TrivA(pos: i32, k: i32) -> i32;
    }
    extern "Rust" {
        type RObj;
        fn r_new(k: i32) -> Box<RObj>;
        fn r_tag(self: &RObj) -> i32;
        fn r_set(self: &mut RObj, k: i32);
        fn r_take_Box_RObj(x: Box<RObj>, k: i32) -> bool;
        fn r_make_Box_RObj(k: i32) -> Box<RObj>;
        fn r_try_Box_RObj(k: i32, fail: bool) -> Result<Box<RObj>>;
        fn r_echo_Box_RObj(x: Box<RObj>, k: i32) -> Box<RObj>;
        fn r_mix_Box_RObj(a: u8, x: Box<RObj>, b: f64, k: i32, y: Box<RObj>, c: u16) -> Result<bool>;
        fn r_m_Box_RObj(self: &mut RObj, x: Box<RObj>, k: i32) -> Box<RObj>;
        fn r_take_Box_S2(x: Box<S2>, k: i32) -> bool;
        fn r_make_Box_S2(k: i32) -> Box<S2>;
        fn r_try_Box_S2(k: i32, fail: bool) -> Result<Box<S2>>;
        fn r_echo_Box_S2(x: Box<S2>, k: i32) -> Box<S2>;
        fn r_mix_Box_S2(a: u8, x: Box<S2>, b: f64, k: i32, y: Box<S2>, c: u16) -> Result<bool>;
        fn r_m_Box_S2(self: &S3, x: Box<S2>, k: i32) -> Box<S2>;
        fn r_take_Box_S7(x: Box<S7>, k: i32) -> bool;
        fn r_make_Box_S7(k: i32) -> Box<S7>;
        fn r_try_Box_S7(k: i32, fail: bool) -> Result<Box<S7>>;
        fn r_echo_Box_S7(x: Box<S7>, k: i32) -> Box<S7>;
        fn r_mix_Box_S7(a: u8, x: Box<S7>, b: f64, k: i32, y: Box<S7>, c: u16) -> Result<bool>;
        fn r_m_Box_S7(self: &mut S3, x: Box<S7>, k: i32) -> Box<S7>;
        fn r_take_Box_TrivA(x: Box<TrivA>, k: i32) -> bool;
        fn r_make_Box_TrivA(k: i32) -> Box<TrivA>;
        fn r_try_Box_TrivA(k: i32, fail: bool) -> Result<Box<TrivA>>;
        fn r_echo_Box_TrivA(x: Box<TrivA>, k: i32) -> Box<TrivA>;
        fn r_mix_Box_TrivA(a: u8, x: Box<TrivA>, b: f64, k: i32, y: Box<TrivA>, c: u16) -> Result<bool>;
        fn r_m_Box_TrivA(self: &RObj, x: Box<TrivA>, k: i32) -> Box<TrivA>;
        fn r_take_Vec_u8(x: Vec<u8>, k: i32) -> bool;
        fn r_make_Vec_u8(k: i32) -> Vec<u8>;
        fn r_try_Vec_u8(k: i32, fail: bool) -> Result<Vec<u8>>;
        fn r_echo_Vec_u8(x: Vec<u8>, k: i32) -> Vec<u8>;
        fn r_mix_Vec_u8(a: u8, x: Vec<u8>, b: f64, k: i32, y: Vec<u8>, c: u16) -> Result<bool>;
        fn r_m_Vec_u8(self: &mut RObj, x: Vec<u8>, k: i32) -> Vec<u8>;
        fn r_take_Vec_i64(x: Vec<i64>, k: i32) -> bool;
        fn r_make_Vec_i64(k: i32) -> Vec<i64>;
        fn r_try_Vec_i64(k: i32, fail: bool) -> Result<Vec<i64>>;
        fn r_echo_Vec_i64(x: Vec<i64>, k: i32) -> Vec<i64>;
        fn r_mix_Vec_i64(a: u8, x: Vec<i64>, b: f64, k: i32, y: Vec<i64>, c: u16) -> Result<bool>;
        fn r_m_Vec_i64(self: &S3, x: Vec<i64>, k: i32) -> Vec<i64>;
        fn r_take_Vec_bool(x: Vec<bool>, k: i32) -> bool;
        fn r_make_Vec_bool(k: i32) -> Vec<bool>;
        fn r_try_Vec_bool(k: i32, fail: bool) -> Result<Vec<bool>>;
        fn r_echo_Vec_bool(x: Vec<bool>, k: i32) -> Vec<bool>;
        fn r_mix_Vec_bool(a: u8, x: Vec<bool>, b: f64, k: i32, y: Vec<bool>, c: u16) -> Result<bool>;
        fn r_m_Vec_bool(self: &mut S3, x: Vec<bool>, k: i32) -> Vec<bool>;
        fn r_take_Vec_f32(x: Vec<f32>, k: i32) -> bool;
        fn r_make_Vec_f32(k: i32) -> Vec<f32>;
        fn r_try_Vec_f32(k: i32, fail: bool) -> Result<Vec<f32>>;
        fn r_echo_Vec_f32(x: Vec<f32>, k: i32) -> Vec<f32>;
        fn r_mix_Vec_f32(a: u8, x: Vec<f32>, b: f64, k: i32, y: Vec<f32>, c: u16) -> Result<bool>;
        fn r_m_Vec_f32(self: &RObj, x: Vec<f32>, k: i32) -> Vec<f32>;
        fn r_take_Vec_usize(x: Vec<usize>, k: i32) -> bool;
        fn r_make_Vec_usize(k: i32) -> Vec<usize>;
        fn r_try_Vec_usize(k: i32, fail: bool) -> Result<Vec<usize>>;
        fn r_echo_Vec_usize(x: Vec<usize>, k: i32) -> Vec<usize>;
        fn r_mix_Vec_usize(a: u8, x: Vec<usize>, b: f64, k: i32, y: Vec<usize>, c: u16) -> Result<bool>;
        fn r_m_Vec_usize(self: &mut RObj, x: Vec<usize>, k: i32) -> Vec<usize>;
        fn r_take_Vec_c_char(x: Vec<c_char>, k: i32) -> bool;
        fn r_make_Vec_c_char(k: i32) -> Vec<c_char>;
        fn r_try_Vec_c_char(k: i32, fail: bool) -> Result<Vec<c_char>>;
        fn r_echo_Vec_c_char(x: Vec<c_char>, k: i32) -> Vec<c_char>;
        fn r_mix_Vec_c_char(a: u8, x: Vec<c_char>, b: f64, k: i32, y: Vec<c_char>, c: u16) -> Result<bool>;
        fn r_m_Vec_c_char(self: &S3, x: Vec<c_char>, k: i32) -> Vec<c_char>;
        fn r_take_Vec_String(x: Vec<String>, k: i32) -> bool;
        fn r_make_Vec_String(k: i32) -> Vec<String>;
        fn r_try_Vec_String(k: i32, fail: bool) -> Result<Vec<String>>;
        fn r_echo_Vec_String(x: Vec<String>, k: i32) -> Vec<String>;
        fn r_mix_Vec_String(a: u8, x: Vec<String>, b: f64, k: i32, y: Vec<String>, c: u16) -> Result<bool>;
        fn r_m_Vec_String(self: &mut S3, x: Vec<String>, k: i32) -> Vec<String>;
        fn r_take_Vec_S2(x: Vec<S2>, k: i32) -> bool;
        fn r_make_Vec_S2(k: i32) -> Vec<S2>;
        fn r_try_Vec_S2(k: i32, fail: bool) -> Result<Vec<S2>>;
        fn r_echo_Vec_S2(x: Vec<S2>, k: i32) -> Vec<S2>;
        fn r_mix_Vec_S2(a: u8, x: Vec<S2>, b: f64, k: i32, y: Vec<S2>, c: u16) -> Result<bool>;
        fn r_m_Vec_S2(self: &RObj, x: Vec<S2>, k: i32) -> Vec<S2>;
        fn r_take_Vec_S7(x: Vec<S7>, k: i32) -> bool;
        fn r_make_Vec_S7(k: i32) -> Vec<S7>;
        fn r_try_Vec_S7(k: i32, fail: bool) -> Result<Vec<S7>>;
        fn r_echo_Vec_S7(x: Vec<S7>, k: i32) -> Vec<S7>;
        fn r_mix_Vec_S7(a: u8, x: Vec<S7>, b: f64, k: i32, y: Vec<S7>, c: u16) -> Result<bool>;
        fn r_m_Vec_S7(self: &mut RObj, x: Vec<S7>, k: i32) -> Vec<S7>;
        fn r_take_Vec_RObj(x: Vec<RObj>, k: i32) -> bool;
        fn r_make_Vec_RObj(k: i32) -> Vec<RObj>;
        fn r_try_Vec_RObj(k: i32, fail: bool) -> Result<Vec<RObj>>;
        fn r_echo_Vec_RObj(x: Vec<RObj>, k: i32) -> Vec<RObj>;
        fn r_mix_Vec_RObj(a: u8, x: Vec<RObj>, b: f64, k: i32, y: Vec<RObj>, c: u16) -> Result<bool>;
        fn r_m_Vec_RObj(self: &S3, x: Vec<RObj>, k: i32) -> Vec<RObj>;
        fn r_take_Vec_Ei8(x: Vec<Ei8>, k: i32) -> bool;
        fn r_make_Vec_Ei8(k: i32) -> Vec<Ei8>;
        fn r_try_Vec_Ei8(k: i32, fail: bool) -> Result<Vec<Ei8>>;
        fn r_echo_Vec_Ei8(x: Vec<Ei8>, k: i32) -> Vec<Ei8>;
        fn r_mix_Vec_Ei8(a: u8, x: Vec<Ei8>, b: f64, k: i32, y: Vec<Ei8>, c: u16) -> Result<bool>;
        fn r_m_Vec_Ei8(self: &mut S3, x: Vec<Ei8>, k: i32) -> Vec<Ei8>;
        fn r_take_Vec_TrivA(x: Vec<TrivA>, k: i32) -> bool;
        fn r_make_Vec_TrivA(k: i32) -> Vec<TrivA>;
        fn r_try_Vec_TrivA(k: i32, fail: bool) -> Result<Vec<TrivA>>;
        fn r_echo_Vec_TrivA(x: Vec<TrivA>, k: i32) -> Vec<TrivA>;
        fn r_mix_Vec_TrivA(a: u8, x: Vec<TrivA>, b: f64, k: i32, y: Vec<TrivA>, c: u16) -> Result<bool>;
        fn r_m_Vec_TrivA(self: &RObj, x: Vec<TrivA>, k: i32) -> Vec<TrivA>;
        fn r_take_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> bool;
        fn r_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj>;
        fn r_try_UniquePtr_CObj(k: i32, fail: bool) -> Result<UniquePtr<CObj>>;
        fn r_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn r_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CObj(self: &mut RObj, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn r_take_UniquePtr_CxxString(x: UniquePtr<CxxString>, k: i32) -> bool;
        fn r_make_UniquePtr_CxxString(k: i32) -> UniquePtr<CxxString>;
        fn r_try_UniquePtr_CxxString(k: i32, fail: bool) -> Result<UniquePtr<CxxString>>;
        fn r_echo_UniquePtr_CxxString(x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString>;
        fn r_mix_UniquePtr_CxxString(a: u8, x: UniquePtr<CxxString>, b: f64, k: i32, y: UniquePtr<CxxString>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CxxString(self: &S3, x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString>;
        fn r_take_UniquePtr_S2(x: UniquePtr<S2>, k: i32) -> bool;
        fn r_make_UniquePtr_S2(k: i32) -> UniquePtr<S2>;
        fn r_try_UniquePtr_S2(k: i32, fail: bool) -> Result<UniquePtr<S2>>;
        fn r_echo_UniquePtr_S2(x: UniquePtr<S2>, k: i32) -> UniquePtr<S2>;
        fn r_mix_UniquePtr_S2(a: u8, x: UniquePtr<S2>, b: f64, k: i32, y: UniquePtr<S2>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_S2(self: &mut S3, x: UniquePtr<S2>, k: i32) -> UniquePtr<S2>;
        fn r_take_UniquePtr_S7(x: UniquePtr<S7>, k: i32) -> bool;
        fn r_make_UniquePtr_S7(k: i32) -> UniquePtr<S7>;
        fn r_try_UniquePtr_S7(k: i32, fail: bool) -> Result<UniquePtr<S7>>;
        fn r_echo_UniquePtr_S7(x: UniquePtr<S7>, k: i32) -> UniquePtr<S7>;
        fn r_mix_UniquePtr_S7(a: u8, x: UniquePtr<S7>, b: f64, k: i32, y: UniquePtr<S7>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_S7(self: &RObj, x: UniquePtr<S7>, k: i32) -> UniquePtr<S7>;
        fn r_take_UniquePtr_TrivA(x: UniquePtr<TrivA>, k: i32) -> bool;
        fn r_make_UniquePtr_TrivA(k: i32) -> UniquePtr<TrivA>;
        fn r_try_UniquePtr_TrivA(k: i32, fail: bool) -> Result<UniquePtr<TrivA>>;
        fn r_echo_UniquePtr_TrivA(x: UniquePtr<TrivA>, k: i32) -> UniquePtr<TrivA>;
        fn r_mix_UniquePtr_TrivA(a: u8, x: UniquePtr<TrivA>, b: f64, k: i32, y: UniquePtr<TrivA>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_TrivA(self: &mut RObj, x: UniquePtr<TrivA>, k: i32) -> UniquePtr<TrivA>;
        fn r_take_UniquePtr_CxxVector_u16(x: UniquePtr<CxxVector<u16>>, k: i32) -> bool;
        fn r_make_UniquePtr_CxxVector_u16(k: i32) -> UniquePtr<CxxVector<u16>>;
        fn r_try_UniquePtr_CxxVector_u16(k: i32, fail: bool) -> Result<UniquePtr<CxxVector<u16>>>;
        fn r_echo_UniquePtr_CxxVector_u16(x: UniquePtr<CxxVector<u16>>, k: i32) -> UniquePtr<CxxVector<u16>>;
        fn r_mix_UniquePtr_CxxVector_u16(a: u8, x: UniquePtr<CxxVector<u16>>, b: f64, k: i32, y: UniquePtr<CxxVector<u16>>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CxxVector_u16(self: &S3, x: UniquePtr<CxxVector<u16>>, k: i32) -> UniquePtr<CxxVector<u16>>;
        fn r_take_UniquePtr_CxxVector_CxxString(x: UniquePtr<CxxVector<CxxString>>, k: i32) -> bool;
        fn r_make_UniquePtr_CxxVector_CxxString(k: i32) -> UniquePtr<CxxVector<CxxString>>;
        fn r_try_UniquePtr_CxxVector_CxxString(k: i32, fail: bool) -> Result<UniquePtr<CxxVector<CxxString>>>;
        fn r_echo_UniquePtr_CxxVector_CxxString(x: UniquePtr<CxxVector<CxxString>>, k: i32) -> UniquePtr<CxxVector<CxxString>>;
        fn r_mix_UniquePtr_CxxVector_CxxString(a: u8, x: UniquePtr<CxxVector<CxxString>>, b: f64, k: i32, y: UniquePtr<CxxVector<CxxString>>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CxxVector_CxxString(self: &mut S3, x: UniquePtr<CxxVector<CxxString>>, k: i32) -> UniquePtr<CxxVector<CxxString>>;
        fn r_take_UniquePtr_CxxVector_CObj(x: UniquePtr<CxxVector<CObj>>, k: i32) -> bool;
        fn r_make_UniquePtr_CxxVector_CObj(k: i32) -> UniquePtr<CxxVector<CObj>>;
        fn r_try_UniquePtr_CxxVector_CObj(k: i32, fail: bool) -> Result<UniquePtr<CxxVector<CObj>>>;
        fn r_echo_UniquePtr_CxxVector_CObj(x: UniquePtr<CxxVector<CObj>>, k: i32) -> UniquePtr<CxxVector<CObj>>;
        fn r_mix_UniquePtr_CxxVector_CObj(a: u8, x: UniquePtr<CxxVector<CObj>>, b: f64, k: i32, y: UniquePtr<CxxVector<CObj>>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CxxVector_CObj(self: &RObj, x: UniquePtr<CxxVector<CObj>>, k: i32) -> UniquePtr<CxxVector<CObj>>;
        fn r_take_UniquePtr_CxxVector_S7(x: UniquePtr<CxxVector<S7>>, k: i32) -> bool;
        fn r_make_UniquePtr_CxxVector_S7(k: i32) -> UniquePtr<CxxVector<S7>>;
        fn r_try_UniquePtr_CxxVector_S7(k: i32, fail: bool) -> Result<UniquePtr<CxxVector<S7>>>;
        fn r_echo_UniquePtr_CxxVector_S7(x: UniquePtr<CxxVector<S7>>, k: i32) -> UniquePtr<CxxVector<S7>>;
        fn r_mix_UniquePtr_CxxVector_S7(a: u8, x: UniquePtr<CxxVector<S7>>, b: f64, k: i32, y: UniquePtr<CxxVector<S7>>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CxxVector_S7(self: &mut RObj, x: UniquePtr<CxxVector<S7>>, k: i32) -> UniquePtr<CxxVector<S7>>;
        fn r_take_UniquePtr_CxxVector_f64(x: UniquePtr<CxxVector<f64>>, k: i32) -> bool;
        fn r_make_UniquePtr_CxxVector_f64(k: i32) -> UniquePtr<CxxVector<f64>>;
        fn r_try_UniquePtr_CxxVector_f64(k: i32, fail: bool) -> Result<UniquePtr<CxxVector<f64>>>;
        fn r_echo_UniquePtr_CxxVector_f64(x: UniquePtr<CxxVector<f64>>, k: i32) -> UniquePtr<CxxVector<f64>>;
        fn r_mix_UniquePtr_CxxVector_f64(a: u8, x: UniquePtr<CxxVector<f64>>, b: f64, k: i32, y: UniquePtr<CxxVector<f64>>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CxxVector_f64(self: &S3, x: UniquePtr<CxxVector<f64>>, k: i32) -> UniquePtr<CxxVector<f64>>;
        fn r_take_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> bool;
        fn r_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj>;
        fn r_try_SharedPtr_CObj(k: i32, fail: bool) -> Result<SharedPtr<CObj>>;
        fn r_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn r_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_SharedPtr_CObj(self: &mut S3, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn r_take_SharedPtr_CxxString(x: SharedPtr<CxxString>, k: i32) -> bool;
        fn r_make_SharedPtr_CxxString(k: i32) -> SharedPtr<CxxString>;
        fn r_try_SharedPtr_CxxString(k: i32, fail: bool) -> Result<SharedPtr<CxxString>>;
        fn r_echo_SharedPtr_CxxString(x: SharedPtr<CxxString>, k: i32) -> SharedPtr<CxxString>;
        fn r_mix_SharedPtr_CxxString(a: u8, x: SharedPtr<CxxString>, b: f64, k: i32, y: SharedPtr<CxxString>, c: u16) -> Result<bool>;
        fn r_m_SharedPtr_CxxString(self: &RObj, x: SharedPtr<CxxString>, k: i32) -> SharedPtr<CxxString>;
        fn r_take_SharedPtr_u32(x: SharedPtr<u32>, k: i32) -> bool;
        fn r_make_SharedPtr_u32(k: i32) -> SharedPtr<u32>;
        fn r_try_SharedPtr_u32(k: i32, fail: bool) -> Result<SharedPtr<u32>>;
        fn r_echo_SharedPtr_u32(x: SharedPtr<u32>, k: i32) -> SharedPtr<u32>;
        fn r_mix_SharedPtr_u32(a: u8, x: SharedPtr<u32>, b: f64, k: i32, y: SharedPtr<u32>, c: u16) -> Result<bool>;
        fn r_m_SharedPtr_u32(self: &mut RObj, x: SharedPtr<u32>, k: i32) -> SharedPtr<u32>;
        fn r_take_SharedPtr_bool(x: SharedPtr<bool>, k: i32) -> bool;
        fn r_make_SharedPtr_bool(k: i32) -> SharedPtr<bool>;
        fn r_try_SharedPtr_bool(k: i32, fail: bool) -> Result<SharedPtr<bool>>;
        fn r_echo_SharedPtr_bool(x: SharedPtr<bool>, k: i32) -> SharedPtr<bool>;
        fn r_mix_SharedPtr_bool(a: u8, x: SharedPtr<bool>, b: f64, k: i32, y: SharedPtr<bool>, c: u16) -> Result<bool>;
        fn r_m_SharedPtr_bool(self: &S3, x: SharedPtr<bool>, k: i32) -> SharedPtr<bool>;
        fn r_take_SharedPtr_f64(x: SharedPtr<f64>, k: i32) -> bool;
        fn r_make_SharedPtr_f64(k: i32) -> SharedPtr<f64>;
        fn r_try_SharedPtr_f64(k: i32, fail: bool) -> Result<SharedPtr<f64>>;
        fn r_echo_SharedPtr_f64(x: SharedPtr<f64>, k: i32) -> SharedPtr<f64>;
        fn r_mix_SharedPtr_f64(a: u8, x: SharedPtr<f64>, b: f64, k: i32, y: SharedPtr<f64>, c: u16) -> Result<bool>;
        fn r_m_SharedPtr_f64(self: &mut S3, x: SharedPtr<f64>, k: i32) -> SharedPtr<f64>;
        fn r_take_SharedPtr_S7(x: SharedPtr<S7>, k: i32) -> bool;
        fn r_make_SharedPtr_S7(k: i32) -> SharedPtr<S7>;
        fn r_try_SharedPtr_S7(k: i32, fail: bool) -> Result<SharedPtr<S7>>;
        fn r_echo_SharedPtr_S7(x: SharedPtr<S7>, k: i32) -> SharedPtr<S7>;
        fn r_mix_SharedPtr_S7(a: u8, x: SharedPtr<S7>, b: f64, k: i32, y: SharedPtr<S7>, c: u16) -> Result<bool>;
        fn r_m_SharedPtr_S7(self: &RObj, x: SharedPtr<S7>, k: i32) -> SharedPtr<S7>;
        fn r_take_SharedPtr_TrivA(x: SharedPtr<TrivA>, k: i32) -> bool;
        fn r_make_SharedPtr_TrivA(k: i32) -> SharedPtr<TrivA>;
        fn r_try_SharedPtr_TrivA(k: i32, fail: bool) -> Result<SharedPtr<TrivA>>;
        fn r_echo_SharedPtr_TrivA(x: SharedPtr<TrivA>, k: i32) -> SharedPtr<TrivA>;
        fn r_mix_SharedPtr_TrivA(a: u8, x: SharedPtr<TrivA>, b: f64, k: i32, y: SharedPtr<TrivA>, c: u16) -> Result<bool>;
        fn r_m_SharedPtr_TrivA(self: &mut RObj, x: SharedPtr<TrivA>, k: i32) -> SharedPtr<TrivA>;
        fn r_take_WeakPtr_CObj(x: WeakPtr<CObj>, k: i32) -> bool;
        fn r_make_WeakPtr_CObj(k: i32) -> WeakPtr<CObj>;
        fn r_try_WeakPtr_CObj(k: i32, fail: bool) -> Result<WeakPtr<CObj>>;
        fn r_echo_WeakPtr_CObj(x: WeakPtr<CObj>, k: i32) -> WeakPtr<CObj>;
        fn r_mix_WeakPtr_CObj(a: u8, x: WeakPtr<CObj>, b: f64, k: i32, y: WeakPtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_WeakPtr_CObj(self: &S3, x: WeakPtr<CObj>, k: i32) -> WeakPtr<CObj>;
        fn r_take_WeakPtr_CxxString(x: WeakPtr<CxxString>, k: i32) -> bool;
        fn r_make_WeakPtr_CxxString(k: i32) -> WeakPtr<CxxString>;
        fn r_try_WeakPtr_CxxString(k: i32, fail: bool) -> Result<WeakPtr<CxxString>>;
        fn r_echo_WeakPtr_CxxString(x: WeakPtr<CxxString>, k: i32) -> WeakPtr<CxxString>;
        fn r_mix_WeakPtr_CxxString(a: u8, x: WeakPtr<CxxString>, b: f64, k: i32, y: WeakPtr<CxxString>, c: u16) -> Result<bool>;
        fn r_m_WeakPtr_CxxString(self: &mut S3, x: WeakPtr<CxxString>, k: i32) -> WeakPtr<CxxString>;
        fn r_take_WeakPtr_i64(x: WeakPtr<i64>, k: i32) -> bool;
        fn r_make_WeakPtr_i64(k: i32) -> WeakPtr<i64>;
        fn r_try_WeakPtr_i64(k: i32, fail: bool) -> Result<WeakPtr<i64>>;
        fn r_echo_WeakPtr_i64(x: WeakPtr<i64>, k: i32) -> WeakPtr<i64>;
        fn r_mix_WeakPtr_i64(a: u8, x: WeakPtr<i64>, b: f64, k: i32, y: WeakPtr<i64>, c: u16) -> Result<bool>;
        fn r_m_WeakPtr_i64(self: &RObj, x: WeakPtr<i64>, k: i32) -> WeakPtr<i64>;
        fn r_take_WeakPtr_S2(x: WeakPtr<S2>, k: i32) -> bool;
        fn r_make_WeakPtr_S2(k: i32) -> WeakPtr<S2>;
        fn r_try_WeakPtr_S2(k: i32, fail: bool) -> Result<WeakPtr<S2>>;
        fn r_echo_WeakPtr_S2(x: WeakPtr<S2>, k: i32) -> WeakPtr<S2>;
        fn r_mix_WeakPtr_S2(a: u8, x: WeakPtr<S2>, b: f64, k: i32, y: WeakPtr<S2>, c: u16) -> Result<bool>;
        fn r_m_WeakPtr_S2(self: &mut RObj, x: WeakPtr<S2>, k: i32) -> WeakPtr<S2>;
        fn r_take_ref_u8(x: &u8, k: i32) -> bool;
        fn r_make_ref_u8(z: &u8, k: i32) -> &u8;
        fn r_try_ref_u8(z: &u8, k: i32, fail: bool) -> Result<&u8>;
        fn r_echo_ref_u8(x: &u8, k: i32) -> &u8;
        fn r_mix_ref_u8(a: u8, x: &u8, b: f64, k: i32, y: &u8, c: u16) -> Result<bool>;
        fn r_m_ref_u8(self: &S3, x: &u8, k: i32) -> bool;
        fn r_take_ref_u64(x: &u64, k: i32) -> bool;
        fn r_make_ref_u64(z: &u8, k: i32) -> &u64;
        fn r_try_ref_u64(z: &u8, k: i32, fail: bool) -> Result<&u64>;
        fn r_echo_ref_u64(x: &u64, k: i32) -> &u64;
        fn r_mix_ref_u64(a: u8, x: &u64, b: f64, k: i32, y: &u64, c: u16) -> Result<bool>;
        fn r_m_ref_u64(self: &mut S3, x: &u64, k: i32) -> bool;
        fn r_take_ref_f64(x: &f64, k: i32) -> bool;
        fn r_make_ref_f64(z: &u8, k: i32) -> &f64;
        fn r_try_ref_f64(z: &u8, k: i32, fail: bool) -> Result<&f64>;
        fn r_echo_ref_f64(x: &f64, k: i32) -> &f64;
        fn r_mix_ref_f64(a: u8, x: &f64, b: f64, k: i32, y: &f64, c: u16) -> Result<bool>;
        fn r_m_ref_f64(self: &RObj, x: &f64, k: i32) -> bool;
        fn r_take_ref_bool(x: &bool, k: i32) -> bool;
        fn r_make_ref_bool(z: &u8, k: i32) -> &bool;
        fn r_try_ref_bool(z: &u8, k: i32, fail: bool) -> Result<&bool>;
        fn r_echo_ref_bool(x: &bool, k: i32) -> &bool;
        fn r_mix_ref_bool(a: u8, x: &bool, b: f64, k: i32, y: &bool, c: u16) -> Result<bool>;
        fn r_m_ref_bool(self: &mut RObj, x: &bool, k: i32) -> bool;
        fn r_take_ref_String(x: &String, k: i32) -> bool;
        fn r_make_ref_String(z: &u8, k: i32) -> &String;
        fn r_try_ref_String(z: &u8, k: i32, fail: bool) -> Result<&String>;
        fn r_echo_ref_String(x: &String, k: i32) -> &String;
        fn r_mix_ref_String(a: u8, x: &String, b: f64, k: i32, y: &String, c: u16) -> Result<bool>;
        fn r_m_ref_String(self: &S3, x: &String, k: i32) -> bool;
        fn r_take_ref_S2(x: &S2, k: i32) -> bool;
        fn r_make_ref_S2(z: &u8, k: i32) -> &S2;
        fn r_try_ref_S2(z: &u8, k: i32, fail: bool) -> Result<&S2>;
        fn r_echo_ref_S2(x: &S2, k: i32) -> &S2;
        fn r_mix_ref_S2(a: u8, x: &S2, b: f64, k: i32, y: &S2, c: u16) -> Result<bool>;
        fn r_m_ref_S2(self: &mut S3, x: &S2, k: i32) -> bool;
        fn r_take_ref_S7(x: &S7, k: i32) -> bool;
        fn r_make_ref_S7(z: &u8, k: i32) -> &S7;
        fn r_try_ref_S7(z: &u8, k: i32, fail: bool) -> Result<&S7>;
        fn r_echo_ref_S7(x: &S7, k: i32) -> &S7;
        fn r_mix_ref_S7(a: u8, x: &S7, b: f64, k: i32, y: &S7, c: u16) -> Result<bool>;
        fn r_m_ref_S7(self: &RObj, x: &S7, k: i32) -> bool;
        fn r_take_ref_RObj(x: &RObj, k: i32) -> bool;
        fn r_make_ref_RObj(z: &u8, k: i32) -> &RObj;
        fn r_try_ref_RObj(z: &u8, k: i32, fail: bool) -> Result<&RObj>;
        fn r_echo_ref_RObj(x: &RObj, k: i32) -> &RObj;
        fn r_mix_ref_RObj(a: u8, x: &RObj, b: f64, k: i32, y: &RObj, c: u16) -> Result<bool>;
        fn r_m_ref_RObj(self: &mut RObj, x: &RObj, k: i32) -> bool;
        fn r_take_ref_CObj(x: &CObj, k: i32) -> bool;
        fn r_make_ref_CObj(z: &u8, k: i32) -> &CObj;
        fn r_try_ref_CObj(z: &u8, k: i32, fail: bool) -> Result<&CObj>;
        fn r_echo_ref_CObj(x: &CObj, k: i32) -> &CObj;
        fn r_mix_ref_CObj(a: u8, x: &CObj, b: f64, k: i32, y: &CObj, c: u16) -> Result<bool>;
        fn r_m_ref_CObj(self: &S3, x: &CObj, k: i32) -> bool;
        fn r_take_ref_CxxString(x: &CxxString, k: i32) -> bool;
        fn r_make_ref_CxxString(z: &u8, k: i32) -> &CxxString;
        fn r_try_ref_CxxString(z: &u8, k: i32, fail: bool) -> Result<&CxxString>;
        fn r_echo_ref_CxxString(x: &CxxString, k: i32) -> &CxxString;
        fn r_mix_ref_CxxString(a: u8, x: &CxxString, b: f64, k: i32, y: &CxxString, c: u16) -> Result<bool>;
        fn r_m_ref_CxxString(self: &mut S3, x: &CxxString, k: i32) -> bool;
        fn r_take_ref_CxxVector_u8(x: &CxxVector<u8>, k: i32) -> bool;
        fn r_make_ref_CxxVector_u8(z: &u8, k: i32) -> &CxxVector<u8>;
        fn r_try_ref_CxxVector_u8(z: &u8, k: i32, fail: bool) -> Result<&CxxVector<u8>>;
        fn r_echo_ref_CxxVector_u8(x: &CxxVector<u8>, k: i32) -> &CxxVector<u8>;
        fn r_mix_ref_CxxVector_u8(a: u8, x: &CxxVector<u8>, b: f64, k: i32, y: &CxxVector<u8>, c: u16) -> Result<bool>;
        fn r_m_ref_CxxVector_u8(self: &RObj, x: &CxxVector<u8>, k: i32) -> bool;
        fn r_take_ref_CxxVector_CxxString(x: &CxxVector<CxxString>, k: i32) -> bool;
        fn r_make_ref_CxxVector_CxxString(z: &u8, k: i32) -> &CxxVector<CxxString>;
        fn r_try_ref_CxxVector_CxxString(z: &u8, k: i32, fail: bool) -> Result<&CxxVector<CxxString>>;
        fn r_echo_ref_CxxVector_CxxString(x: &CxxVector<CxxString>, k: i32) -> &CxxVector<CxxString>;
        fn r_mix_ref_CxxVector_CxxString(a: u8, x: &CxxVector<CxxString>, b: f64, k: i32, y: &CxxVector<CxxString>, c: u16) -> Result<bool>;
        fn r_m_ref_CxxVector_CxxString(self: &mut RObj, x: &CxxVector<CxxString>, k: i32) -> bool;
        fn r_take_ref_Vec_u8(x: &Vec<u8>, k: i32) -> bool;
        fn r_make_ref_Vec_u8(z: &u8, k: i32) -> &Vec<u8>;
        fn r_try_ref_Vec_u8(z: &u8, k: i32, fail: bool) -> Result<&Vec<u8>>;
        fn r_echo_ref_Vec_u8(x: &Vec<u8>, k: i32) -> &Vec<u8>;
        fn r_mix_ref_Vec_u8(a: u8, x: &Vec<u8>, b: f64, k: i32, y: &Vec<u8>, c: u16) -> Result<bool>;
        fn r_m_ref_Vec_u8(self: &S3, x: &Vec<u8>, k: i32) -> bool;
        fn r_take_ref_Vec_String(x: &Vec<String>, k: i32) -> bool;
        fn r_make_ref_Vec_String(z: &u8, k: i32) -> &Vec<String>;
        fn r_try_ref_Vec_String(z: &u8, k: i32, fail: bool) -> Result<&Vec<String>>;
        fn r_echo_ref_Vec_String(x: &Vec<String>, k: i32) -> &Vec<String>;
        fn r_mix_ref_Vec_String(a: u8, x: &Vec<String>, b: f64, k: i32, y: &Vec<String>, c: u16) -> Result<bool>;
        fn r_m_ref_Vec_String(self: &mut S3, x: &Vec<String>, k: i32) -> bool;
        fn r_take_ref_Vec_RObj(x: &Vec<RObj>, k: i32) -> bool;
        fn r_make_ref_Vec_RObj(z: &u8, k: i32) -> &Vec<RObj>;
        fn r_try_ref_Vec_RObj(z: &u8, k: i32, fail: bool) -> Result<&Vec<RObj>>;
        fn r_echo_ref_Vec_RObj(x: &Vec<RObj>, k: i32) -> &Vec<RObj>;
        fn r_mix_ref_Vec_RObj(a: u8, x: &Vec<RObj>, b: f64, k: i32, y: &Vec<RObj>, c: u16) -> Result<bool>;
        fn r_m_ref_Vec_RObj(self: &RObj, x: &Vec<RObj>, k: i32) -> bool;
        fn r_take_ref_Box_RObj(x: &Box<RObj>, k: i32) -> bool;
        fn r_make_ref_Box_RObj(z: &u8, k: i32) -> &Box<RObj>;
        fn r_try_ref_Box_RObj(z: &u8, k: i32, fail: bool) -> Result<&Box<RObj>>;
        fn r_echo_ref_Box_RObj(x: &Box<RObj>, k: i32) -> &Box<RObj>;
        fn r_mix_ref_Box_RObj(a: u8, x: &Box<RObj>, b: f64, k: i32, y: &Box<RObj>, c: u16) -> Result<bool>;
        fn r_m_ref_Box_RObj(self: &mut RObj, x: &Box<RObj>, k: i32) -> bool;
        fn r_take_ref_UniquePtr_CObj(x: &UniquePtr<CObj>, k: i32) -> bool;
        fn r_make_ref_UniquePtr_CObj(z: &u8, k: i32) -> &UniquePtr<CObj>;
        fn r_try_ref_UniquePtr_CObj(z: &u8, k: i32, fail: bool) -> Result<&UniquePtr<CObj>>;
        fn r_echo_ref_UniquePtr_CObj(x: &UniquePtr<CObj>, k: i32) -> &UniquePtr<CObj>;
        fn r_mix_ref_UniquePtr_CObj(a: u8, x: &UniquePtr<CObj>, b: f64, k: i32, y: &UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_ref_UniquePtr_CObj(self: &S3, x: &UniquePtr<CObj>, k: i32) -> bool;
        fn r_take_ref_SharedPtr_CObj(x: &SharedPtr<CObj>, k: i32) -> bool;
        fn r_make_ref_SharedPtr_CObj(z: &u8, k: i32) -> &SharedPtr<CObj>;
        fn r_try_ref_SharedPtr_CObj(z: &u8, k: i32, fail: bool) -> Result<&SharedPtr<CObj>>;
        fn r_echo_ref_SharedPtr_CObj(x: &SharedPtr<CObj>, k: i32) -> &SharedPtr<CObj>;
        fn r_mix_ref_SharedPtr_CObj(a: u8, x: &SharedPtr<CObj>, b: f64, k: i32, y: &SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_ref_SharedPtr_CObj(self: &mut S3, x: &SharedPtr<CObj>, k: i32) -> bool;
        fn r_take_ref_WeakPtr_CObj(x: &WeakPtr<CObj>, k: i32) -> bool;
        fn r_make_ref_WeakPtr_CObj(z: &u8, k: i32) -> &WeakPtr<CObj>;
        fn r_try_ref_WeakPtr_CObj(z: &u8, k: i32, fail: bool) -> Result<&WeakPtr<CObj>>;
        fn r_echo_ref_WeakPtr_CObj(x: &WeakPtr<CObj>, k: i32) -> &WeakPtr<CObj>;
        fn r_mix_ref_WeakPtr_CObj(a: u8, x: &WeakPtr<CObj>, b: f64, k: i32, y: &WeakPtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_ref_WeakPtr_CObj(self: &RObj, x: &WeakPtr<CObj>, k: i32) -> bool;
        fn r_take_ref_Eu8(x: &Eu8, k: i32) -> bool;
        fn r_make_ref_Eu8(z: &u8, k: i32) -> &Eu8;
        fn r_try_ref_Eu8(z: &u8, k: i32, fail: bool) -> Result<&Eu8>;
        fn r_echo_ref_Eu8(x: &Eu8, k: i32) -> &Eu8;
        fn r_mix_ref_Eu8(a: u8, x: &Eu8, b: f64, k: i32, y: &Eu8, c: u16) -> Result<bool>;
        fn r_m_ref_Eu8(self: &mut RObj, x: &Eu8, k: i32) -> bool;
        fn r_take_ref_TrivA(x: &TrivA, k: i32) -> bool;
        fn r_make_ref_TrivA(z: &u8, k: i32) -> &TrivA;
        fn r_try_ref_TrivA(z: &u8, k: i32, fail: bool) -> Result<&TrivA>;
        fn r_echo_ref_TrivA(x: &TrivA, k: i32) -> &TrivA;
        fn r_mix_ref_TrivA(a: u8, x: &TrivA, b: f64, k: i32, y: &TrivA, c: u16) -> Result<bool>;
        fn r_m_ref_TrivA(self: &S3, x: &TrivA, k: i32) -> bool;
    }
    impl Box<TrivA> {}
    impl SharedPtr<S2> {}
    impl SharedPtr<TrivA> {}
    impl UniquePtr<TrivA> {}
    impl Vec<TrivA> {}
}
#[repr(C)] pub struct TrivA { pub f0: i32 }
unsafe impl cxx::ExternType for TrivA { type Id = cxx::type_id!("c09b::TrivA"); type Kind = cxx::kind::Trivial; }
fn mk_f32(k: i32) -> f32 { f32::from_bits([0x80000000, 0x7f800000, 0x3fc00000, 0x7fc00001][k as usize]) }
fn ck_f32(v: &f32, k: i32) -> bool { v.to_bits() == mk_f32(k).to_bits() }
fn ad_f32(v: &f32) -> usize { 0 }
fn mk_S3(k: i32) -> S3 { S3 { f0: mk_f32((k + 0) & 3), f1: mk_f32((k + 1) & 3) } }
fn ck_S3(v: &S3, k: i32) -> bool { ck_f32(&v.f0, (k + 0) & 3) && ck_f32(&v.f1, (k + 1) & 3) }
fn ad_S3(v: &S3) -> usize { 0 }
fn mk_RObj(k: i32) -> RObj { RObj::new(k) }
fn ck_RObj(v: &RObj, k: i32) -> bool { v.r_tag() == k && v.pad == TXT[k as usize] }
fn ad_RObj(v: &RObj) -> usize { 0 }
fn mk_Box_RObj(k: i32) -> Box<RObj> { Box::new(mk_RObj(k)) }
fn ck_Box_RObj(v: &Box<RObj>, k: i32) -> bool { ck_RObj(v, k) }
fn ad_Box_RObj(v: &Box<RObj>) -> usize { 0 }
fn mk_u8(k: i32) -> u8 { [0, 1, 128, 255][k as usize] }
fn ck_u8(v: &u8, k: i32) -> bool { *v == mk_u8(k) }
fn ad_u8(v: &u8) -> usize { 0 }
fn mk_S2(k: i32) -> S2 { S2 { f0: mk_u8((k + 0) & 3), f1: mk_u8((k + 1) & 3) } }
fn ck_S2(v: &S2, k: i32) -> bool { ck_u8(&v.f0, (k + 0) & 3) && ck_u8(&v.f1, (k + 1) & 3) }
fn ad_S2(v: &S2) -> usize { 0 }
fn mk_Box_S2(k: i32) -> Box<S2> { Box::new(mk_S2(k)) }
fn ck_Box_S2(v: &Box<S2>, k: i32) -> bool { ck_S2(v, k) }
fn ad_Box_S2(v: &Box<S2>) -> usize { 0 }
fn mk_String(k: i32) -> String { TXT[k as usize].to_owned() }
fn ck_String(v: &String, k: i32) -> bool { v == TXT[k as usize] }
fn ad_String(v: &String) -> usize { 0 }
fn mk_S7(k: i32) -> S7 { S7 { f0: mk_String((k + 0) & 3) } }
fn ck_S7(v: &S7, k: i32) -> bool { ck_String(&v.f0, (k + 0) & 3) }
fn ad_S7(v: &S7) -> usize { 0 }
fn mk_Box_S7(k: i32) -> Box<S7> { Box::new(mk_S7(k)) }
fn ck_Box_S7(v: &Box<S7>, k: i32) -> bool { ck_S7(v, k) }
fn ad_Box_S7(v: &Box<S7>) -> usize { 0 }
fn mk_i32(k: i32) -> i32 { [0, 1, -2147483648, 2147483647][k as usize] }
fn ck_i32(v: &i32, k: i32) -> bool { *v == mk_i32(k) }
fn ad_i32(v: &i32) -> usize { 0 }
fn mk_TrivA(k: i32) -> TrivA { TrivA { f0: mk_i32((k + 0) & 3) } }
fn ck_TrivA(v: &TrivA, k: i32) -> bool { ck_i32(&v.f0, (k + 0) & 3) }
fn ad_TrivA(v: &TrivA) -> usize { 0 }
fn mk_Box_TrivA(k: i32) -> Box<TrivA> { Box::new(mk_TrivA(k)) }
fn ck_Box_TrivA(v: &Box<TrivA>, k: i32) -> bool { ck_TrivA(v, k) }
fn ad_Box_TrivA(v: &Box<TrivA>) -> usize { 0 }
fn mk_Vec_u8(k: i32) -> Vec<u8> { (0..k).map(|i| mk_u8((k + i) & 3)).collect() }
fn ck_Vec_u8(v: &Vec<u8>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_Vec_u8(v: &Vec<u8>) -> usize { 0 }
fn mk_i64(k: i32) -> i64 { [0, 1, -9223372036854775808, 9223372036854775807][k as usize] }
fn ck_i64(v: &i64, k: i32) -> bool { *v == mk_i64(k) }
fn ad_i64(v: &i64) -> usize { 0 }
fn mk_Vec_i64(k: i32) -> Vec<i64> { (0..k).map(|i| mk_i64((k + i) & 3)).collect() }
fn ck_Vec_i64(v: &Vec<i64>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_i64(v, (k + i as i32) & 3)) }
fn ad_Vec_i64(v: &Vec<i64>) -> usize { 0 }
fn mk_bool(k: i32) -> bool { k & 1 == 1 }
fn ck_bool(v: &bool, k: i32) -> bool { *v == (k & 1 == 1) }
fn ad_bool(v: &bool) -> usize { 0 }
fn mk_Vec_bool(k: i32) -> Vec<bool> { (0..k).map(|i| mk_bool((k + i) & 3)).collect() }
fn ck_Vec_bool(v: &Vec<bool>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_bool(v, (k + i as i32) & 3)) }
fn ad_Vec_bool(v: &Vec<bool>) -> usize { 0 }
fn mk_Vec_f32(k: i32) -> Vec<f32> { (0..k).map(|i| mk_f32((k + i) & 3)).collect() }
fn ck_Vec_f32(v: &Vec<f32>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_f32(v, (k + i as i32) & 3)) }
fn ad_Vec_f32(v: &Vec<f32>) -> usize { 0 }
fn mk_usize(k: i32) -> usize { [0, 1, 9223372036854775808, 18446744073709551615][k as usize] }
fn ck_usize(v: &usize, k: i32) -> bool { *v == mk_usize(k) }
fn ad_usize(v: &usize) -> usize { 0 }
fn mk_Vec_usize(k: i32) -> Vec<usize> { (0..k).map(|i| mk_usize((k + i) & 3)).collect() }
fn ck_Vec_usize(v: &Vec<usize>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_usize(v, (k + i as i32) & 3)) }
fn ad_Vec_usize(v: &Vec<usize>) -> usize { 0 }
fn mk_c_char(k: i32) -> c_char { [0u8, b'a', 0x80, 0xff][k as usize] as c_char }
fn ck_c_char(v: &c_char, k: i32) -> bool { *v == mk_c_char(k) }
fn ad_c_char(v: &c_char) -> usize { 0 }
fn mk_Vec_c_char(k: i32) -> Vec<c_char> { (0..k).map(|i| mk_c_char((k + i) & 3)).collect() }
fn ck_Vec_c_char(v: &Vec<c_char>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_c_char(v, (k + i as i32) & 3)) }
fn ad_Vec_c_char(v: &Vec<c_char>) -> usize { 0 }
fn mk_Vec_String(k: i32) -> Vec<String> { (0..k).map(|i| mk_String((k + i) & 3)).collect() }
fn ck_Vec_String(v: &Vec<String>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_String(v, (k + i as i32) & 3)) }
fn ad_Vec_String(v: &Vec<String>) -> usize { 0 }
fn mk_Vec_S2(k: i32) -> Vec<S2> { (0..k).map(|i| mk_S2((k + i) & 3)).collect() }
fn ck_Vec_S2(v: &Vec<S2>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_S2(v, (k + i as i32) & 3)) }
fn ad_Vec_S2(v: &Vec<S2>) -> usize { 0 }
fn mk_Vec_S7(k: i32) -> Vec<S7> { (0..k).map(|i| mk_S7((k + i) & 3)).collect() }
fn ck_Vec_S7(v: &Vec<S7>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_S7(v, (k + i as i32) & 3)) }
fn ad_Vec_S7(v: &Vec<S7>) -> usize { 0 }
fn mk_Vec_RObj(k: i32) -> Vec<RObj> { (0..k).map(|i| mk_RObj((k + i) & 3)).collect() }
fn ck_Vec_RObj(v: &Vec<RObj>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_RObj(v, (k + i as i32) & 3)) }
fn ad_Vec_RObj(v: &Vec<RObj>) -> usize { 0 }
fn mk_Ei8(k: i32) -> Ei8 { [Ei8::V0, Ei8::V1, Ei8::V2, Ei8::V3][k as usize] }
fn ck_Ei8(v: &Ei8, k: i32) -> bool { *v == mk_Ei8(k) && v.repr == [0, 1, -128, 127][k as usize] }
fn ad_Ei8(v: &Ei8) -> usize { 0 }
fn mk_Vec_Ei8(k: i32) -> Vec<Ei8> { (0..k).map(|i| mk_Ei8((k + i) & 3)).collect() }
fn ck_Vec_Ei8(v: &Vec<Ei8>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_Ei8(v, (k + i as i32) & 3)) }
fn ad_Vec_Ei8(v: &Vec<Ei8>) -> usize { 0 }
fn mk_Vec_TrivA(k: i32) -> Vec<TrivA> { (0..k).map(|i| mk_TrivA((k + i) & 3)).collect() }
fn ck_Vec_TrivA(v: &Vec<TrivA>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_TrivA(v, (k + i as i32) & 3)) }
fn ad_Vec_TrivA(v: &Vec<TrivA>) -> usize { 0 }
fn ck_CObj(v: &CObj, k: i32) -> bool { v.c_tag() == k }
fn ad_CObj(v: &CObj) -> usize { 0 }
fn mk_UniquePtr_CObj(k: i32) -> UniquePtr<CObj> { ffi::c_make_UniquePtr_CObj(k) }
fn ck_UniquePtr_CObj(v: &UniquePtr<CObj>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CObj(v, k) } }
fn ad_UniquePtr_CObj(v: &UniquePtr<CObj>) -> usize { 0 }
fn ck_CxxString(v: &CxxString, k: i32) -> bool { v.as_bytes() == TXT[k as usize].as_bytes() }
fn ad_CxxString(v: &CxxString) -> usize { 0 }
fn mk_UniquePtr_CxxString(k: i32) -> UniquePtr<CxxString> { ffi::c_make_UniquePtr_CxxString(k) }
fn ck_UniquePtr_CxxString(v: &UniquePtr<CxxString>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CxxString(v, k) } }
fn ad_UniquePtr_CxxString(v: &UniquePtr<CxxString>) -> usize { 0 }
fn mk_UniquePtr_S2(k: i32) -> UniquePtr<S2> { if k == 3 { UniquePtr::null() } else { UniquePtr::new(mk_S2(k)) } }
fn ck_UniquePtr_S2(v: &UniquePtr<S2>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_S2(v, k) } }
fn ad_UniquePtr_S2(v: &UniquePtr<S2>) -> usize { 0 }
fn mk_UniquePtr_S7(k: i32) -> UniquePtr<S7> { if k == 3 { UniquePtr::null() } else { UniquePtr::new(mk_S7(k)) } }
fn ck_UniquePtr_S7(v: &UniquePtr<S7>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_S7(v, k) } }
fn ad_UniquePtr_S7(v: &UniquePtr<S7>) -> usize { 0 }
fn mk_UniquePtr_TrivA(k: i32) -> UniquePtr<TrivA> { if k == 3 { UniquePtr::null() } else { UniquePtr::new(mk_TrivA(k)) } }
fn ck_UniquePtr_TrivA(v: &UniquePtr<TrivA>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_TrivA(v, k) } }
fn ad_UniquePtr_TrivA(v: &UniquePtr<TrivA>) -> usize { 0 }
fn mk_u16(k: i32) -> u16 { [0, 1, 32768, 65535][k as usize] }
fn ck_u16(v: &u16, k: i32) -> bool { *v == mk_u16(k) }
fn ad_u16(v: &u16) -> usize { 0 }
fn ck_CxxVector_u16(v: &CxxVector<u16>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u16(v, (k + i as i32) & 3)) }
fn ad_CxxVector_u16(v: &CxxVector<u16>) -> usize { 0 }
fn mk_UniquePtr_CxxVector_u16(k: i32) -> UniquePtr<CxxVector<u16>> { ffi::c_make_UniquePtr_CxxVector_u16(k) }
fn ck_UniquePtr_CxxVector_u16(v: &UniquePtr<CxxVector<u16>>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CxxVector_u16(v, k) } }
fn ad_UniquePtr_CxxVector_u16(v: &UniquePtr<CxxVector<u16>>) -> usize { 0 }
fn ck_CxxVector_CxxString(v: &CxxVector<CxxString>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_CxxString(v, (k + i as i32) & 3)) }
fn ad_CxxVector_CxxString(v: &CxxVector<CxxString>) -> usize { 0 }
fn mk_UniquePtr_CxxVector_CxxString(k: i32) -> UniquePtr<CxxVector<CxxString>> { ffi::c_make_UniquePtr_CxxVector_CxxString(k) }
fn ck_UniquePtr_CxxVector_CxxString(v: &UniquePtr<CxxVector<CxxString>>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CxxVector_CxxString(v, k) } }
fn ad_UniquePtr_CxxVector_CxxString(v: &UniquePtr<CxxVector<CxxString>>) -> usize { 0 }
fn ck_CxxVector_CObj(v: &CxxVector<CObj>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_CObj(v, (k + i as i32) & 3)) }
fn ad_CxxVector_CObj(v: &CxxVector<CObj>) -> usize { 0 }
fn mk_UniquePtr_CxxVector_CObj(k: i32) -> UniquePtr<CxxVector<CObj>> { ffi::c_make_UniquePtr_CxxVector_CObj(k) }
fn ck_UniquePtr_CxxVector_CObj(v: &UniquePtr<CxxVector<CObj>>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CxxVector_CObj(v, k) } }
fn ad_UniquePtr_CxxVector_CObj(v: &UniquePtr<CxxVector<CObj>>) -> usize { 0 }
fn ck_CxxVector_S7(v: &CxxVector<S7>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_S7(v, (k + i as i32) & 3)) }
fn ad_CxxVector_S7(v: &CxxVector<S7>) -> usize { 0 }
fn mk_UniquePtr_CxxVector_S7(k: i32) -> UniquePtr<CxxVector<S7>> { ffi::c_make_UniquePtr_CxxVector_S7(k) }
fn ck_UniquePtr_CxxVector_S7(v: &UniquePtr<CxxVector<S7>>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CxxVector_S7(v, k) } }
fn ad_UniquePtr_CxxVector_S7(v: &UniquePtr<CxxVector<S7>>) -> usize { 0 }
fn mk_f64(k: i32) -> f64 { f64::from_bits([0x8000000000000000, 0xfff0000000000000, 0x3ff8000000000000, 0x7ff8000000000123][k as usize]) }
fn ck_f64(v: &f64, k: i32) -> bool { v.to_bits() == mk_f64(k).to_bits() }
fn ad_f64(v: &f64) -> usize { 0 }
fn ck_CxxVector_f64(v: &CxxVector<f64>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_f64(v, (k + i as i32) & 3)) }
fn ad_CxxVector_f64(v: &CxxVector<f64>) -> usize { 0 }
fn mk_UniquePtr_CxxVector_f64(k: i32) -> UniquePtr<CxxVector<f64>> { ffi::c_make_UniquePtr_CxxVector_f64(k) }
fn ck_UniquePtr_CxxVector_f64(v: &UniquePtr<CxxVector<f64>>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CxxVector_f64(v, k) } }
fn ad_UniquePtr_CxxVector_f64(v: &UniquePtr<CxxVector<f64>>) -> usize { 0 }
fn mk_SharedPtr_CObj(k: i32) -> SharedPtr<CObj> { ffi::c_make_SharedPtr_CObj(k) }
fn ck_SharedPtr_CObj(v: &SharedPtr<CObj>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CObj(v, k) } }
fn ad_SharedPtr_CObj(v: &SharedPtr<CObj>) -> usize { 0 }
fn mk_SharedPtr_CxxString(k: i32) -> SharedPtr<CxxString> { ffi::c_make_SharedPtr_CxxString(k) }
fn ck_SharedPtr_CxxString(v: &SharedPtr<CxxString>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CxxString(v, k) } }
fn ad_SharedPtr_CxxString(v: &SharedPtr<CxxString>) -> usize { 0 }
fn mk_u32(k: i32) -> u32 { [0, 1, 2147483648, 4294967295][k as usize] }
fn ck_u32(v: &u32, k: i32) -> bool { *v == mk_u32(k) }
fn ad_u32(v: &u32) -> usize { 0 }
fn mk_SharedPtr_u32(k: i32) -> SharedPtr<u32> { if k == 3 { SharedPtr::null() } else { SharedPtr::new(mk_u32(k)) } }
fn ck_SharedPtr_u32(v: &SharedPtr<u32>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_u32(v, k) } }
fn ad_SharedPtr_u32(v: &SharedPtr<u32>) -> usize { 0 }
fn mk_SharedPtr_bool(k: i32) -> SharedPtr<bool> { if k == 3 { SharedPtr::null() } else { SharedPtr::new(mk_bool(k)) } }
fn ck_SharedPtr_bool(v: &SharedPtr<bool>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_bool(v, k) } }
fn ad_SharedPtr_bool(v: &SharedPtr<bool>) -> usize { 0 }
fn mk_SharedPtr_f64(k: i32) -> SharedPtr<f64> { if k == 3 { SharedPtr::null() } else { SharedPtr::new(mk_f64(k)) } }
fn ck_SharedPtr_f64(v: &SharedPtr<f64>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_f64(v, k) } }
fn ad_SharedPtr_f64(v: &SharedPtr<f64>) -> usize { 0 }
fn mk_SharedPtr_S7(k: i32) -> SharedPtr<S7> { if k == 3 { SharedPtr::null() } else { SharedPtr::new(mk_S7(k)) } }
fn ck_SharedPtr_S7(v: &SharedPtr<S7>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_S7(v, k) } }
fn ad_SharedPtr_S7(v: &SharedPtr<S7>) -> usize { 0 }
fn mk_SharedPtr_TrivA(k: i32) -> SharedPtr<TrivA> { if k == 3 { SharedPtr::null() } else { SharedPtr::new(mk_TrivA(k)) } }
fn ck_SharedPtr_TrivA(v: &SharedPtr<TrivA>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_TrivA(v, k) } }
fn ad_SharedPtr_TrivA(v: &SharedPtr<TrivA>) -> usize { 0 }
fn mk_WeakPtr_CObj(k: i32) -> WeakPtr<CObj> { { static mut S: [Option<SharedPtr<CObj>>; 4] = [None, None, None, None]; let s = mk_SharedPtr_CObj(k); let w = s.downgrade(); unsafe { (&mut *(&raw mut S))[k as usize] = Some(s); } w } }
fn ck_WeakPtr_CObj(v: &WeakPtr<CObj>, k: i32) -> bool { match v.upgrade().as_ref() { None => k == 3, Some(v) => k != 3 && ck_CObj(v, k) } }
fn ad_WeakPtr_CObj(v: &WeakPtr<CObj>) -> usize { 0 }
fn mk_WeakPtr_CxxString(k: i32) -> WeakPtr<CxxString> { { static mut S: [Option<SharedPtr<CxxString>>; 4] = [None, None, None, None]; let s = mk_SharedPtr_CxxString(k); let w = s.downgrade(); unsafe { (&mut *(&raw mut S))[k as usize] = Some(s); } w } }
fn ck_WeakPtr_CxxString(v: &WeakPtr<CxxString>, k: i32) -> bool { match v.upgrade().as_ref() { None => k == 3, Some(v) => k != 3 && ck_CxxString(v, k) } }
fn ad_WeakPtr_CxxString(v: &WeakPtr<CxxString>) -> usize { 0 }
fn mk_SharedPtr_i64(k: i32) -> SharedPtr<i64> { if k == 3 { SharedPtr::null() } else { SharedPtr::new(mk_i64(k)) } }
fn ck_SharedPtr_i64(v: &SharedPtr<i64>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_i64(v, k) } }
fn ad_SharedPtr_i64(v: &SharedPtr<i64>) -> usize { 0 }
fn mk_WeakPtr_i64(k: i32) -> WeakPtr<i64> { { static mut S: [Option<SharedPtr<i64>>; 4] = [None, None, None, None]; let s = mk_SharedPtr_i64(k); let w = s.downgrade(); unsafe { (&mut *(&raw mut S))[k as usize] = Some(s); } w } }
fn ck_WeakPtr_i64(v: &WeakPtr<i64>, k: i32) -> bool { match v.upgrade().as_ref() { None => k == 3, Some(v) => k != 3 && ck_i64(v, k) } }
fn ad_WeakPtr_i64(v: &WeakPtr<i64>) -> usize { 0 }
fn mk_SharedPtr_S2(k: i32) -> SharedPtr<S2> { if k == 3 { SharedPtr::null() } else { SharedPtr::new(mk_S2(k)) } }
fn ck_SharedPtr_S2(v: &SharedPtr<S2>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_S2(v, k) } }
fn ad_SharedPtr_S2(v: &SharedPtr<S2>) -> usize { 0 }
fn mk_WeakPtr_S2(k: i32) -> WeakPtr<S2> { { static mut S: [Option<SharedPtr<S2>>; 4] = [None, None, None, None]; let s = mk_SharedPtr_S2(k); let w = s.downgrade(); unsafe { (&mut *(&raw mut S))[k as usize] = Some(s); } w } }
fn ck_WeakPtr_S2(v: &WeakPtr<S2>, k: i32) -> bool { match v.upgrade().as_ref() { None => k == 3, Some(v) => k != 3 && ck_S2(v, k) } }
fn ad_WeakPtr_S2(v: &WeakPtr<S2>) -> usize { 0 }
fn mk_ref_u8(k: i32) -> &'static u8 { &*rs_u8(k) }
fn ck_ref_u8(v: &&u8, k: i32) -> bool { ck_u8(*v, k) }
fn ad_ref_u8(v: &&u8) -> usize { *v as *const _ as *const u8 as usize }
fn mk_u64(k: i32) -> u64 { [0, 1, 9223372036854775808, 18446744073709551615][k as usize] }
fn ck_u64(v: &u64, k: i32) -> bool { *v == mk_u64(k) }
fn ad_u64(v: &u64) -> usize { 0 }
fn mk_ref_u64(k: i32) -> &'static u64 { &*rs_u64(k) }
fn ck_ref_u64(v: &&u64, k: i32) -> bool { ck_u64(*v, k) }
fn ad_ref_u64(v: &&u64) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_f64(k: i32) -> &'static f64 { &*rs_f64(k) }
fn ck_ref_f64(v: &&f64, k: i32) -> bool { ck_f64(*v, k) }
fn ad_ref_f64(v: &&f64) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_bool(k: i32) -> &'static bool { &*rs_bool(k) }
fn ck_ref_bool(v: &&bool, k: i32) -> bool { ck_bool(*v, k) }
fn ad_ref_bool(v: &&bool) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_String(k: i32) -> &'static String { &*rs_String(k) }
fn ck_ref_String(v: &&String, k: i32) -> bool { ck_String(*v, k) }
fn ad_ref_String(v: &&String) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_S2(k: i32) -> &'static S2 { &*rs_S2(k) }
fn ck_ref_S2(v: &&S2, k: i32) -> bool { ck_S2(*v, k) }
fn ad_ref_S2(v: &&S2) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_S7(k: i32) -> &'static S7 { &*rs_S7(k) }
fn ck_ref_S7(v: &&S7, k: i32) -> bool { ck_S7(*v, k) }
fn ad_ref_S7(v: &&S7) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_RObj(k: i32) -> &'static RObj { &*rs_RObj(k) }
fn ck_ref_RObj(v: &&RObj, k: i32) -> bool { ck_RObj(*v, k) }
fn ad_ref_RObj(v: &&RObj) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_CObj(k: i32) -> &'static CObj { { let _ = rs_CObj(k); rp_CObj(k) } }
fn ck_ref_CObj(v: &&CObj, k: i32) -> bool { ck_CObj(*v, k) }
fn ad_ref_CObj(v: &&CObj) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_CxxString(k: i32) -> &'static CxxString { { let _ = rs_CxxString(k); rp_CxxString(k) } }
fn ck_ref_CxxString(v: &&CxxString, k: i32) -> bool { ck_CxxString(*v, k) }
fn ad_ref_CxxString(v: &&CxxString) -> usize { *v as *const _ as *const u8 as usize }
fn ck_CxxVector_u8(v: &CxxVector<u8>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_CxxVector_u8(v: &CxxVector<u8>) -> usize { 0 }
fn mk_ref_CxxVector_u8(k: i32) -> &'static CxxVector<u8> { { let _ = rs_CxxVector_u8(k); rp_CxxVector_u8(k) } }
fn ck_ref_CxxVector_u8(v: &&CxxVector<u8>, k: i32) -> bool { ck_CxxVector_u8(*v, k) }
fn ad_ref_CxxVector_u8(v: &&CxxVector<u8>) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_CxxVector_CxxString(k: i32) -> &'static CxxVector<CxxString> { { let _ = rs_CxxVector_CxxString(k); rp_CxxVector_CxxString(k) } }
fn ck_ref_CxxVector_CxxString(v: &&CxxVector<CxxString>, k: i32) -> bool { ck_CxxVector_CxxString(*v, k) }
fn ad_ref_CxxVector_CxxString(v: &&CxxVector<CxxString>) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_Vec_u8(k: i32) -> &'static Vec<u8> { &*rs_Vec_u8(k) }
fn ck_ref_Vec_u8(v: &&Vec<u8>, k: i32) -> bool { ck_Vec_u8(*v, k) }
fn ad_ref_Vec_u8(v: &&Vec<u8>) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_Vec_String(k: i32) -> &'static Vec<String> { &*rs_Vec_String(k) }
fn ck_ref_Vec_String(v: &&Vec<String>, k: i32) -> bool { ck_Vec_String(*v, k) }
fn ad_ref_Vec_String(v: &&Vec<String>) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_Vec_RObj(k: i32) -> &'static Vec<RObj> { &*rs_Vec_RObj(k) }
fn ck_ref_Vec_RObj(v: &&Vec<RObj>, k: i32) -> bool { ck_Vec_RObj(*v, k) }
fn ad_ref_Vec_RObj(v: &&Vec<RObj>) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_Box_RObj(k: i32) -> &'static Box<RObj> { &*rs_Box_RObj(k) }
fn ck_ref_Box_RObj(v: &&Box<RObj>, k: i32) -> bool { ck_Box_RObj(*v, k) }
fn ad_ref_Box_RObj(v: &&Box<RObj>) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_UniquePtr_CObj(k: i32) -> &'static UniquePtr<CObj> { &*rs_UniquePtr_CObj(k) }
fn ck_ref_UniquePtr_CObj(v: &&UniquePtr<CObj>, k: i32) -> bool { ck_UniquePtr_CObj(*v, k) }
fn ad_ref_UniquePtr_CObj(v: &&UniquePtr<CObj>) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_SharedPtr_CObj(k: i32) -> &'static SharedPtr<CObj> { &*rs_SharedPtr_CObj(k) }
fn ck_ref_SharedPtr_CObj(v: &&SharedPtr<CObj>, k: i32) -> bool { ck_SharedPtr_CObj(*v, k) }
fn ad_ref_SharedPtr_CObj(v: &&SharedPtr<CObj>) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_WeakPtr_CObj(k: i32) -> &'static WeakPtr<CObj> { &*rs_WeakPtr_CObj(k) }
fn ck_ref_WeakPtr_CObj(v: &&WeakPtr<CObj>, k: i32) -> bool { ck_WeakPtr_CObj(*v, k) }
fn ad_ref_WeakPtr_CObj(v: &&WeakPtr<CObj>) -> usize { *v as *const _ as *const u8 as usize }
fn mk_Eu8(k: i32) -> Eu8 { [Eu8::V0, Eu8::V1, Eu8::V2, Eu8::V3][k as usize] }
fn ck_Eu8(v: &Eu8, k: i32) -> bool { *v == mk_Eu8(k) && v.repr == [0, 1, 128, 255][k as usize] }
fn ad_Eu8(v: &Eu8) -> usize { 0 }
fn mk_ref_Eu8(k: i32) -> &'static Eu8 { &*rs_Eu8(k) }
fn ck_ref_Eu8(v: &&Eu8, k: i32) -> bool { ck_Eu8(*v, k) }
fn ad_ref_Eu8(v: &&Eu8) -> usize { *v as *const _ as *const u8 as usize }
fn mk_ref_TrivA(k: i32) -> &'static TrivA { &*rs_TrivA(k) }
fn ck_ref_TrivA(v: &&TrivA, k: i32) -> bool { ck_TrivA(*v, k) }
fn ad_ref_TrivA(v: &&TrivA) -> usize { *v as *const _ as *const u8 as usize }
static mut ST_u8: [Option<u8>; 4] = [None, None, None, None];
fn rs_u8(k: i32) -> &'static mut u8 { unsafe { ST_u8[k as usize] = Some(mk_u8(k)); ST_u8[k as usize].as_mut().unwrap() } }
fn rp_u8(k: i32) -> &'static u8 { unsafe { &*ST_u8[k as usize].as_ref().unwrap() } }
static mut ST_u64: [Option<u64>; 4] = [None, None, None, None];
fn rs_u64(k: i32) -> &'static mut u64 { unsafe { ST_u64[k as usize] = Some(mk_u64(k)); ST_u64[k as usize].as_mut().unwrap() } }
fn rp_u64(k: i32) -> &'static u64 { unsafe { &*ST_u64[k as usize].as_ref().unwrap() } }
static mut ST_f64: [Option<f64>; 4] = [None, None, None, None];
fn rs_f64(k: i32) -> &'static mut f64 { unsafe { ST_f64[k as usize] = Some(mk_f64(k)); ST_f64[k as usize].as_mut().unwrap() } }
fn rp_f64(k: i32) -> &'static f64 { unsafe { &*ST_f64[k as usize].as_ref().unwrap() } }
static mut ST_bool: [Option<bool>; 4] = [None, None, None, None];
fn rs_bool(k: i32) -> &'static mut bool { unsafe { ST_bool[k as usize] = Some(mk_bool(k)); ST_bool[k as usize].as_mut().unwrap() } }
fn rp_bool(k: i32) -> &'static bool { unsafe { &*ST_bool[k as usize].as_ref().unwrap() } }
static mut ST_String: [Option<String>; 4] = [None, None, None, None];
fn rs_String(k: i32) -> &'static mut String { unsafe { ST_String[k as usize] = Some(mk_String(k)); ST_String[k as usize].as_mut().unwrap() } }
fn rp_String(k: i32) -> &'static String { unsafe { &*ST_String[k as usize].as_ref().unwrap() } }
static mut ST_S2: [Option<S2>; 4] = [None, None, None, None];
fn rs_S2(k: i32) -> &'static mut S2 { unsafe { ST_S2[k as usize] = Some(mk_S2(k)); ST_S2[k as usize].as_mut().unwrap() } }
fn rp_S2(k: i32) -> &'static S2 { unsafe { &*ST_S2[k as usize].as_ref().unwrap() } }
static mut ST_S7: [Option<S7>; 4] = [None, None, None, None];
fn rs_S7(k: i32) -> &'static mut S7 { unsafe { ST_S7[k as usize] = Some(mk_S7(k)); ST_S7[k as usize].as_mut().unwrap() } }
fn rp_S7(k: i32) -> &'static S7 { unsafe { &*ST_S7[k as usize].as_ref().unwrap() } }
static mut ST_RObj: [Option<RObj>; 4] = [None, None, None, None];
fn rs_RObj(k: i32) -> &'static mut RObj { unsafe { ST_RObj[k as usize] = Some(mk_RObj(k)); ST_RObj[k as usize].as_mut().unwrap() } }
fn rp_RObj(k: i32) -> &'static RObj { unsafe { &*ST_RObj[k as usize].as_ref().unwrap() } }
static mut ST_CObj: [Option<UniquePtr<CObj>>; 4] = [None, None, None, None];
fn rs_CObj(k: i32) -> Pin<&'static mut CObj> { unsafe { ST_CObj[k as usize] = Some(ffi::c_store_CObj(k)); ST_CObj[k as usize].as_mut().unwrap().pin_mut() } }
fn rp_CObj(k: i32) -> &'static CObj { unsafe { &*ST_CObj[k as usize].as_ref().unwrap() } }
static mut ST_CxxString: [Option<UniquePtr<CxxString>>; 4] = [None, None, None, None];
fn rs_CxxString(k: i32) -> Pin<&'static mut CxxString> { unsafe { ST_CxxString[k as usize] = Some(ffi::c_store_CxxString(k)); ST_CxxString[k as usize].as_mut().unwrap().pin_mut() } }
fn rp_CxxString(k: i32) -> &'static CxxString { unsafe { &*ST_CxxString[k as usize].as_ref().unwrap() } }
static mut ST_CxxVector_u8: [Option<UniquePtr<CxxVector<u8>>>; 4] = [None, None, None, None];
fn rs_CxxVector_u8(k: i32) -> Pin<&'static mut CxxVector<u8>> { unsafe { ST_CxxVector_u8[k as usize] = Some(ffi::c_store_CxxVector_u8(k)); ST_CxxVector_u8[k as usize].as_mut().unwrap().pin_mut() } }
fn rp_CxxVector_u8(k: i32) -> &'static CxxVector<u8> { unsafe { &*ST_CxxVector_u8[k as usize].as_ref().unwrap() } }
static mut ST_CxxVector_CxxString: [Option<UniquePtr<CxxVector<CxxString>>>; 4] = [None, None, None, None];
fn rs_CxxVector_CxxString(k: i32) -> Pin<&'static mut CxxVector<CxxString>> { unsafe { ST_CxxVector_CxxString[k as usize] = Some(ffi::c_store_CxxVector_CxxString(k)); ST_CxxVector_CxxString[k as usize].as_mut().unwrap().pin_mut() } }
fn rp_CxxVector_CxxString(k: i32) -> &'static CxxVector<CxxString> { unsafe { &*ST_CxxVector_CxxString[k as usize].as_ref().unwrap() } }
static mut ST_Vec_u8: [Option<Vec<u8>>; 4] = [None, None, None, None];
fn rs_Vec_u8(k: i32) -> &'static mut Vec<u8> { unsafe { ST_Vec_u8[k as usize] = Some(mk_Vec_u8(k)); ST_Vec_u8[k as usize].as_mut().unwrap() } }
fn rp_Vec_u8(k: i32) -> &'static Vec<u8> { unsafe { &*ST_Vec_u8[k as usize].as_ref().unwrap() } }
static mut ST_Vec_String: [Option<Vec<String>>; 4] = [None, None, None, None];
fn rs_Vec_String(k: i32) -> &'static mut Vec<String> { unsafe { ST_Vec_String[k as usize] = Some(mk_Vec_String(k)); ST_Vec_String[k as usize].as_mut().unwrap() } }
fn rp_Vec_String(k: i32) -> &'static Vec<String> { unsafe { &*ST_Vec_String[k as usize].as_ref().unwrap() } }
static mut ST_Vec_RObj: [Option<Vec<RObj>>; 4] = [None, None, None, None];
fn rs_Vec_RObj(k: i32) -> &'static mut Vec<RObj> { unsafe { ST_Vec_RObj[k as usize] = Some(mk_Vec_RObj(k)); ST_Vec_RObj[k as usize].as_mut().unwrap() } }
fn rp_Vec_RObj(k: i32) -> &'static Vec<RObj> { unsafe { &*ST_Vec_RObj[k as usize].as_ref().unwrap() } }
static mut ST_Box_RObj: [Option<Box<RObj>>; 4] = [None, None, None, None];
fn rs_Box_RObj(k: i32) -> &'static mut Box<RObj> { unsafe { ST_Box_RObj[k as usize] = Some(mk_Box_RObj(k)); ST_Box_RObj[k as usize].as_mut().unwrap() } }
fn rp_Box_RObj(k: i32) -> &'static Box<RObj> { unsafe { &*ST_Box_RObj[k as usize].as_ref().unwrap() } }
static mut ST_UniquePtr_CObj: [Option<UniquePtr<CObj>>; 4] = [None, None, None, None];
fn rs_UniquePtr_CObj(k: i32) -> &'static mut UniquePtr<CObj> { unsafe { ST_UniquePtr_CObj[k as usize] = Some(mk_UniquePtr_CObj(k)); ST_UniquePtr_CObj[k as usize].as_mut().unwrap() } }
fn rp_UniquePtr_CObj(k: i32) -> &'static UniquePtr<CObj> { unsafe { &*ST_UniquePtr_CObj[k as usize].as_ref().unwrap() } }
static mut ST_SharedPtr_CObj: [Option<SharedPtr<CObj>>; 4] = [None, None, None, None];
fn rs_SharedPtr_CObj(k: i32) -> &'static mut SharedPtr<CObj> { unsafe { ST_SharedPtr_CObj[k as usize] = Some(mk_SharedPtr_CObj(k)); ST_SharedPtr_CObj[k as usize].as_mut().unwrap() } }
fn rp_SharedPtr_CObj(k: i32) -> &'static SharedPtr<CObj> { unsafe { &*ST_SharedPtr_CObj[k as usize].as_ref().unwrap() } }
static mut ST_WeakPtr_CObj: [Option<WeakPtr<CObj>>; 4] = [None, None, None, None];
fn rs_WeakPtr_CObj(k: i32) -> &'static mut WeakPtr<CObj> { unsafe { ST_WeakPtr_CObj[k as usize] = Some(mk_WeakPtr_CObj(k)); ST_WeakPtr_CObj[k as usize].as_mut().unwrap() } }
fn rp_WeakPtr_CObj(k: i32) -> &'static WeakPtr<CObj> { unsafe { &*ST_WeakPtr_CObj[k as usize].as_ref().unwrap() } }
static mut ST_Eu8: [Option<Eu8>; 4] = [None, None, None, None];
fn rs_Eu8(k: i32) -> &'static mut Eu8 { unsafe { ST_Eu8[k as usize] = Some(mk_Eu8(k)); ST_Eu8[k as usize].as_mut().unwrap() } }
fn rp_Eu8(k: i32) -> &'static Eu8 { unsafe { &*ST_Eu8[k as usize].as_ref().unwrap() } }
static mut ST_TrivA: [Option<TrivA>; 4] = [None, None, None, None];
fn rs_TrivA(k: i32) -> &'static mut TrivA { unsafe { ST_TrivA[k as usize] = Some(mk_TrivA(k)); ST_TrivA[k as usize].as_mut().unwrap() } }
fn rp_TrivA(k: i32) -> &'static TrivA { unsafe { &*ST_TrivA[k as usize].as_ref().unwrap() } }
fn r_take_Box_RObj(mut x: Box<RObj>, k: i32) -> bool { let a = ad_Box_RObj(&x); let ok = ck_Box_RObj(&x, k);  note(a); ok }
fn r_make_Box_RObj(k: i32) -> Box<RObj> { let x = mk_Box_RObj(k); note(ad_Box_RObj(&x)); x }
fn r_try_Box_RObj(k: i32, fail: bool) -> R<Box<RObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Box_RObj(k); note(ad_Box_RObj(&x)); Ok(x) }
fn r_echo_Box_RObj(x: Box<RObj>, k: i32) -> Box<RObj> { note(if ck_Box_RObj(&x, k) { ad_Box_RObj(&x) } else { 1 }); x }
fn r_mix_Box_RObj(a: u8, x: Box<RObj>, b: f64, k: i32, y: Box<RObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_Box_RObj(&x, k) && b == -1.5 && ck_Box_RObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Box_RObj(&mut self, x: Box<RObj>, k: i32) -> Box<RObj> { note(if ck_RObj(self, 2) && ck_Box_RObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Box_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Box_RObj(k); let a = ad_Box_RObj(&x); ensure!(ffi::c_take_Box_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Box_RObj(k); ensure!(ck_Box_RObj(&x, k) && addr() == ad_Box_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Box_RObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_Box_RObj(&x, k) && addr() == ad_Box_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Box_RObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Box_RObj(k); let a = ad_Box_RObj(&x); let y = ffi::c_echo_Box_RObj(x, k); ensure!(addr() == a && ad_Box_RObj(&y) == a && ck_Box_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Box_RObj(200, mk_Box_RObj(k), -1.5, k, mk_Box_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Box_RObj(k); let y = o.c_m_Box_RObj(x, k); ensure!(addr() == 0 && ck_Box_RObj(&y, k), "method"); }
  7 => { fn f(x: Box<RObj>, k: i32) -> Box<RObj> { note(if ck_Box_RObj(&x, k) { ad_Box_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_Box_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Box_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Box_S2(mut x: Box<S2>, k: i32) -> bool { let a = ad_Box_S2(&x); let ok = ck_Box_S2(&x, k);  note(a); ok }
fn r_make_Box_S2(k: i32) -> Box<S2> { let x = mk_Box_S2(k); note(ad_Box_S2(&x)); x }
fn r_try_Box_S2(k: i32, fail: bool) -> R<Box<S2>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Box_S2(k); note(ad_Box_S2(&x)); Ok(x) }
fn r_echo_Box_S2(x: Box<S2>, k: i32) -> Box<S2> { note(if ck_Box_S2(&x, k) { ad_Box_S2(&x) } else { 1 }); x }
fn r_mix_Box_S2(a: u8, x: Box<S2>, b: f64, k: i32, y: Box<S2>, c: u16) -> R<bool> { Ok(a == 200 && ck_Box_S2(&x, k) && b == -1.5 && ck_Box_S2(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Box_S2(&self, x: Box<S2>, k: i32) -> Box<S2> { note(if ck_S3(self, 2) && ck_Box_S2(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Box_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Box_S2(k); let a = ad_Box_S2(&x); ensure!(ffi::c_take_Box_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Box_S2(k); ensure!(ck_Box_S2(&x, k) && addr() == ad_Box_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Box_S2(k, false).map_err(|e| e.to_string())?; ensure!(ck_Box_S2(&x, k) && addr() == ad_Box_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Box_S2(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Box_S2(k); let a = ad_Box_S2(&x); let y = ffi::c_echo_Box_S2(x, k); ensure!(addr() == a && ad_Box_S2(&y) == a && ck_Box_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Box_S2(200, mk_Box_S2(k), -1.5, k, mk_Box_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Box_S2(k); let y = o.c_m_Box_S2(x, k); ensure!(addr() == 0 && ck_Box_S2(&y, k), "method"); }
  7 => { fn f(x: Box<S2>, k: i32) -> Box<S2> { note(if ck_Box_S2(&x, k) { ad_Box_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_Box_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Box_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Box_S7(mut x: Box<S7>, k: i32) -> bool { let a = ad_Box_S7(&x); let ok = ck_Box_S7(&x, k);  note(a); ok }
fn r_make_Box_S7(k: i32) -> Box<S7> { let x = mk_Box_S7(k); note(ad_Box_S7(&x)); x }
fn r_try_Box_S7(k: i32, fail: bool) -> R<Box<S7>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Box_S7(k); note(ad_Box_S7(&x)); Ok(x) }
fn r_echo_Box_S7(x: Box<S7>, k: i32) -> Box<S7> { note(if ck_Box_S7(&x, k) { ad_Box_S7(&x) } else { 1 }); x }
fn r_mix_Box_S7(a: u8, x: Box<S7>, b: f64, k: i32, y: Box<S7>, c: u16) -> R<bool> { Ok(a == 200 && ck_Box_S7(&x, k) && b == -1.5 && ck_Box_S7(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Box_S7(&mut self, x: Box<S7>, k: i32) -> Box<S7> { note(if ck_S3(self, 2) && ck_Box_S7(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Box_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Box_S7(k); let a = ad_Box_S7(&x); ensure!(ffi::c_take_Box_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Box_S7(k); ensure!(ck_Box_S7(&x, k) && addr() == ad_Box_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Box_S7(k, false).map_err(|e| e.to_string())?; ensure!(ck_Box_S7(&x, k) && addr() == ad_Box_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Box_S7(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Box_S7(k); let a = ad_Box_S7(&x); let y = ffi::c_echo_Box_S7(x, k); ensure!(addr() == a && ad_Box_S7(&y) == a && ck_Box_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Box_S7(200, mk_Box_S7(k), -1.5, k, mk_Box_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Box_S7(k); let y = o.c_m_Box_S7(x, k); ensure!(addr() == 0 && ck_Box_S7(&y, k), "method"); }
  7 => { fn f(x: Box<S7>, k: i32) -> Box<S7> { note(if ck_Box_S7(&x, k) { ad_Box_S7(&x) } else { 1 }); x } ensure!(ffi::c_cb_Box_S7(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Box_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Box_TrivA(mut x: Box<TrivA>, k: i32) -> bool { let a = ad_Box_TrivA(&x); let ok = ck_Box_TrivA(&x, k);  note(a); ok }
fn r_make_Box_TrivA(k: i32) -> Box<TrivA> { let x = mk_Box_TrivA(k); note(ad_Box_TrivA(&x)); x }
fn r_try_Box_TrivA(k: i32, fail: bool) -> R<Box<TrivA>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Box_TrivA(k); note(ad_Box_TrivA(&x)); Ok(x) }
fn r_echo_Box_TrivA(x: Box<TrivA>, k: i32) -> Box<TrivA> { note(if ck_Box_TrivA(&x, k) { ad_Box_TrivA(&x) } else { 1 }); x }
fn r_mix_Box_TrivA(a: u8, x: Box<TrivA>, b: f64, k: i32, y: Box<TrivA>, c: u16) -> R<bool> { Ok(a == 200 && ck_Box_TrivA(&x, k) && b == -1.5 && ck_Box_TrivA(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Box_TrivA(&self, x: Box<TrivA>, k: i32) -> Box<TrivA> { note(if ck_RObj(self, 2) && ck_Box_TrivA(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Box_TrivA(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Box_TrivA(k); let a = ad_Box_TrivA(&x); ensure!(ffi::c_take_Box_TrivA(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Box_TrivA(k); ensure!(ck_Box_TrivA(&x, k) && addr() == ad_Box_TrivA(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Box_TrivA(k, false).map_err(|e| e.to_string())?; ensure!(ck_Box_TrivA(&x, k) && addr() == ad_Box_TrivA(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Box_TrivA(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Box_TrivA(k); let a = ad_Box_TrivA(&x); let y = ffi::c_echo_Box_TrivA(x, k); ensure!(addr() == a && ad_Box_TrivA(&y) == a && ck_Box_TrivA(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Box_TrivA(200, mk_Box_TrivA(k), -1.5, k, mk_Box_TrivA((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Box_TrivA(k); let y = o.c_m_Box_TrivA(x, k); ensure!(addr() == 0 && ck_Box_TrivA(&y, k), "method"); }
  7 => { fn f(x: Box<TrivA>, k: i32) -> Box<TrivA> { note(if ck_Box_TrivA(&x, k) { ad_Box_TrivA(&x) } else { 1 }); x } ensure!(ffi::c_cb_Box_TrivA(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Box_TrivA(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_u8(mut x: Vec<u8>, k: i32) -> bool { let a = ad_Vec_u8(&x); let ok = ck_Vec_u8(&x, k);  note(a); ok }
fn r_make_Vec_u8(k: i32) -> Vec<u8> { let x = mk_Vec_u8(k); note(ad_Vec_u8(&x)); x }
fn r_try_Vec_u8(k: i32, fail: bool) -> R<Vec<u8>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_u8(k); note(ad_Vec_u8(&x)); Ok(x) }
fn r_echo_Vec_u8(x: Vec<u8>, k: i32) -> Vec<u8> { note(if ck_Vec_u8(&x, k) { ad_Vec_u8(&x) } else { 1 }); x }
fn r_mix_Vec_u8(a: u8, x: Vec<u8>, b: f64, k: i32, y: Vec<u8>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_u8(&x, k) && b == -1.5 && ck_Vec_u8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Vec_u8(&mut self, x: Vec<u8>, k: i32) -> Vec<u8> { note(if ck_RObj(self, 2) && ck_Vec_u8(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_u8(k); let a = ad_Vec_u8(&x); ensure!(ffi::c_take_Vec_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_u8(k); ensure!(ck_Vec_u8(&x, k) && addr() == ad_Vec_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_u8(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_u8(&x, k) && addr() == ad_Vec_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_u8(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_u8(k); let a = ad_Vec_u8(&x); let y = ffi::c_echo_Vec_u8(x, k); ensure!(addr() == a && ad_Vec_u8(&y) == a && ck_Vec_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_u8(200, mk_Vec_u8(k), -1.5, k, mk_Vec_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Vec_u8(k); let y = o.c_m_Vec_u8(x, k); ensure!(addr() == 0 && ck_Vec_u8(&y, k), "method"); }
  7 => { fn f(x: Vec<u8>, k: i32) -> Vec<u8> { note(if ck_Vec_u8(&x, k) { ad_Vec_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_i64(mut x: Vec<i64>, k: i32) -> bool { let a = ad_Vec_i64(&x); let ok = ck_Vec_i64(&x, k);  note(a); ok }
fn r_make_Vec_i64(k: i32) -> Vec<i64> { let x = mk_Vec_i64(k); note(ad_Vec_i64(&x)); x }
fn r_try_Vec_i64(k: i32, fail: bool) -> R<Vec<i64>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_i64(k); note(ad_Vec_i64(&x)); Ok(x) }
fn r_echo_Vec_i64(x: Vec<i64>, k: i32) -> Vec<i64> { note(if ck_Vec_i64(&x, k) { ad_Vec_i64(&x) } else { 1 }); x }
fn r_mix_Vec_i64(a: u8, x: Vec<i64>, b: f64, k: i32, y: Vec<i64>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_i64(&x, k) && b == -1.5 && ck_Vec_i64(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Vec_i64(&self, x: Vec<i64>, k: i32) -> Vec<i64> { note(if ck_S3(self, 2) && ck_Vec_i64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_i64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_i64(k); let a = ad_Vec_i64(&x); ensure!(ffi::c_take_Vec_i64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_i64(k); ensure!(ck_Vec_i64(&x, k) && addr() == ad_Vec_i64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_i64(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_i64(&x, k) && addr() == ad_Vec_i64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_i64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_i64(k); let a = ad_Vec_i64(&x); let y = ffi::c_echo_Vec_i64(x, k); ensure!(addr() == a && ad_Vec_i64(&y) == a && ck_Vec_i64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_i64(200, mk_Vec_i64(k), -1.5, k, mk_Vec_i64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Vec_i64(k); let y = o.c_m_Vec_i64(x, k); ensure!(addr() == 0 && ck_Vec_i64(&y, k), "method"); }
  7 => { fn f(x: Vec<i64>, k: i32) -> Vec<i64> { note(if ck_Vec_i64(&x, k) { ad_Vec_i64(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_i64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_i64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_bool(mut x: Vec<bool>, k: i32) -> bool { let a = ad_Vec_bool(&x); let ok = ck_Vec_bool(&x, k);  note(a); ok }
fn r_make_Vec_bool(k: i32) -> Vec<bool> { let x = mk_Vec_bool(k); note(ad_Vec_bool(&x)); x }
fn r_try_Vec_bool(k: i32, fail: bool) -> R<Vec<bool>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_bool(k); note(ad_Vec_bool(&x)); Ok(x) }
fn r_echo_Vec_bool(x: Vec<bool>, k: i32) -> Vec<bool> { note(if ck_Vec_bool(&x, k) { ad_Vec_bool(&x) } else { 1 }); x }
fn r_mix_Vec_bool(a: u8, x: Vec<bool>, b: f64, k: i32, y: Vec<bool>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_bool(&x, k) && b == -1.5 && ck_Vec_bool(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Vec_bool(&mut self, x: Vec<bool>, k: i32) -> Vec<bool> { note(if ck_S3(self, 2) && ck_Vec_bool(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_bool(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_bool(k); let a = ad_Vec_bool(&x); ensure!(ffi::c_take_Vec_bool(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_bool(k); ensure!(ck_Vec_bool(&x, k) && addr() == ad_Vec_bool(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_bool(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_bool(&x, k) && addr() == ad_Vec_bool(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_bool(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_bool(k); let a = ad_Vec_bool(&x); let y = ffi::c_echo_Vec_bool(x, k); ensure!(addr() == a && ad_Vec_bool(&y) == a && ck_Vec_bool(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_bool(200, mk_Vec_bool(k), -1.5, k, mk_Vec_bool((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Vec_bool(k); let y = o.c_m_Vec_bool(x, k); ensure!(addr() == 0 && ck_Vec_bool(&y, k), "method"); }
  7 => { fn f(x: Vec<bool>, k: i32) -> Vec<bool> { note(if ck_Vec_bool(&x, k) { ad_Vec_bool(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_bool(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_bool(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_f32(mut x: Vec<f32>, k: i32) -> bool { let a = ad_Vec_f32(&x); let ok = ck_Vec_f32(&x, k);  note(a); ok }
fn r_make_Vec_f32(k: i32) -> Vec<f32> { let x = mk_Vec_f32(k); note(ad_Vec_f32(&x)); x }
fn r_try_Vec_f32(k: i32, fail: bool) -> R<Vec<f32>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_f32(k); note(ad_Vec_f32(&x)); Ok(x) }
fn r_echo_Vec_f32(x: Vec<f32>, k: i32) -> Vec<f32> { note(if ck_Vec_f32(&x, k) { ad_Vec_f32(&x) } else { 1 }); x }
fn r_mix_Vec_f32(a: u8, x: Vec<f32>, b: f64, k: i32, y: Vec<f32>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_f32(&x, k) && b == -1.5 && ck_Vec_f32(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Vec_f32(&self, x: Vec<f32>, k: i32) -> Vec<f32> { note(if ck_RObj(self, 2) && ck_Vec_f32(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_f32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_f32(k); let a = ad_Vec_f32(&x); ensure!(ffi::c_take_Vec_f32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_f32(k); ensure!(ck_Vec_f32(&x, k) && addr() == ad_Vec_f32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_f32(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_f32(&x, k) && addr() == ad_Vec_f32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_f32(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_f32(k); let a = ad_Vec_f32(&x); let y = ffi::c_echo_Vec_f32(x, k); ensure!(addr() == a && ad_Vec_f32(&y) == a && ck_Vec_f32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_f32(200, mk_Vec_f32(k), -1.5, k, mk_Vec_f32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Vec_f32(k); let y = o.c_m_Vec_f32(x, k); ensure!(addr() == 0 && ck_Vec_f32(&y, k), "method"); }
  7 => { fn f(x: Vec<f32>, k: i32) -> Vec<f32> { note(if ck_Vec_f32(&x, k) { ad_Vec_f32(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_f32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_f32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_usize(mut x: Vec<usize>, k: i32) -> bool { let a = ad_Vec_usize(&x); let ok = ck_Vec_usize(&x, k);  note(a); ok }
fn r_make_Vec_usize(k: i32) -> Vec<usize> { let x = mk_Vec_usize(k); note(ad_Vec_usize(&x)); x }
fn r_try_Vec_usize(k: i32, fail: bool) -> R<Vec<usize>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_usize(k); note(ad_Vec_usize(&x)); Ok(x) }
fn r_echo_Vec_usize(x: Vec<usize>, k: i32) -> Vec<usize> { note(if ck_Vec_usize(&x, k) { ad_Vec_usize(&x) } else { 1 }); x }
fn r_mix_Vec_usize(a: u8, x: Vec<usize>, b: f64, k: i32, y: Vec<usize>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_usize(&x, k) && b == -1.5 && ck_Vec_usize(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Vec_usize(&mut self, x: Vec<usize>, k: i32) -> Vec<usize> { note(if ck_RObj(self, 2) && ck_Vec_usize(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_usize(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_usize(k); let a = ad_Vec_usize(&x); ensure!(ffi::c_take_Vec_usize(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_usize(k); ensure!(ck_Vec_usize(&x, k) && addr() == ad_Vec_usize(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_usize(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_usize(&x, k) && addr() == ad_Vec_usize(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_usize(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_usize(k); let a = ad_Vec_usize(&x); let y = ffi::c_echo_Vec_usize(x, k); ensure!(addr() == a && ad_Vec_usize(&y) == a && ck_Vec_usize(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_usize(200, mk_Vec_usize(k), -1.5, k, mk_Vec_usize((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Vec_usize(k); let y = o.c_m_Vec_usize(x, k); ensure!(addr() == 0 && ck_Vec_usize(&y, k), "method"); }
  7 => { fn f(x: Vec<usize>, k: i32) -> Vec<usize> { note(if ck_Vec_usize(&x, k) { ad_Vec_usize(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_usize(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_usize(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_c_char(mut x: Vec<c_char>, k: i32) -> bool { let a = ad_Vec_c_char(&x); let ok = ck_Vec_c_char(&x, k);  note(a); ok }
fn r_make_Vec_c_char(k: i32) -> Vec<c_char> { let x = mk_Vec_c_char(k); note(ad_Vec_c_char(&x)); x }
fn r_try_Vec_c_char(k: i32, fail: bool) -> R<Vec<c_char>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_c_char(k); note(ad_Vec_c_char(&x)); Ok(x) }
fn r_echo_Vec_c_char(x: Vec<c_char>, k: i32) -> Vec<c_char> { note(if ck_Vec_c_char(&x, k) { ad_Vec_c_char(&x) } else { 1 }); x }
fn r_mix_Vec_c_char(a: u8, x: Vec<c_char>, b: f64, k: i32, y: Vec<c_char>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_c_char(&x, k) && b == -1.5 && ck_Vec_c_char(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Vec_c_char(&self, x: Vec<c_char>, k: i32) -> Vec<c_char> { note(if ck_S3(self, 2) && ck_Vec_c_char(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_c_char(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_c_char(k); let a = ad_Vec_c_char(&x); ensure!(ffi::c_take_Vec_c_char(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_c_char(k); ensure!(ck_Vec_c_char(&x, k) && addr() == ad_Vec_c_char(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_c_char(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_c_char(&x, k) && addr() == ad_Vec_c_char(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_c_char(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_c_char(k); let a = ad_Vec_c_char(&x); let y = ffi::c_echo_Vec_c_char(x, k); ensure!(addr() == a && ad_Vec_c_char(&y) == a && ck_Vec_c_char(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_c_char(200, mk_Vec_c_char(k), -1.5, k, mk_Vec_c_char((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Vec_c_char(k); let y = o.c_m_Vec_c_char(x, k); ensure!(addr() == 0 && ck_Vec_c_char(&y, k), "method"); }
  7 => { fn f(x: Vec<c_char>, k: i32) -> Vec<c_char> { note(if ck_Vec_c_char(&x, k) { ad_Vec_c_char(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_c_char(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_c_char(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_String(mut x: Vec<String>, k: i32) -> bool { let a = ad_Vec_String(&x); let ok = ck_Vec_String(&x, k);  note(a); ok }
fn r_make_Vec_String(k: i32) -> Vec<String> { let x = mk_Vec_String(k); note(ad_Vec_String(&x)); x }
fn r_try_Vec_String(k: i32, fail: bool) -> R<Vec<String>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_String(k); note(ad_Vec_String(&x)); Ok(x) }
fn r_echo_Vec_String(x: Vec<String>, k: i32) -> Vec<String> { note(if ck_Vec_String(&x, k) { ad_Vec_String(&x) } else { 1 }); x }
fn r_mix_Vec_String(a: u8, x: Vec<String>, b: f64, k: i32, y: Vec<String>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_String(&x, k) && b == -1.5 && ck_Vec_String(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Vec_String(&mut self, x: Vec<String>, k: i32) -> Vec<String> { note(if ck_S3(self, 2) && ck_Vec_String(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_String(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_String(k); let a = ad_Vec_String(&x); ensure!(ffi::c_take_Vec_String(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_String(k); ensure!(ck_Vec_String(&x, k) && addr() == ad_Vec_String(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_String(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_String(&x, k) && addr() == ad_Vec_String(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_String(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_String(k); let a = ad_Vec_String(&x); let y = ffi::c_echo_Vec_String(x, k); ensure!(addr() == a && ad_Vec_String(&y) == a && ck_Vec_String(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_String(200, mk_Vec_String(k), -1.5, k, mk_Vec_String((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Vec_String(k); let y = o.c_m_Vec_String(x, k); ensure!(addr() == 0 && ck_Vec_String(&y, k), "method"); }
  7 => { fn f(x: Vec<String>, k: i32) -> Vec<String> { note(if ck_Vec_String(&x, k) { ad_Vec_String(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_String(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_String(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_S2(mut x: Vec<S2>, k: i32) -> bool { let a = ad_Vec_S2(&x); let ok = ck_Vec_S2(&x, k);  note(a); ok }
fn r_make_Vec_S2(k: i32) -> Vec<S2> { let x = mk_Vec_S2(k); note(ad_Vec_S2(&x)); x }
fn r_try_Vec_S2(k: i32, fail: bool) -> R<Vec<S2>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_S2(k); note(ad_Vec_S2(&x)); Ok(x) }
fn r_echo_Vec_S2(x: Vec<S2>, k: i32) -> Vec<S2> { note(if ck_Vec_S2(&x, k) { ad_Vec_S2(&x) } else { 1 }); x }
fn r_mix_Vec_S2(a: u8, x: Vec<S2>, b: f64, k: i32, y: Vec<S2>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_S2(&x, k) && b == -1.5 && ck_Vec_S2(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Vec_S2(&self, x: Vec<S2>, k: i32) -> Vec<S2> { note(if ck_RObj(self, 2) && ck_Vec_S2(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_S2(k); let a = ad_Vec_S2(&x); ensure!(ffi::c_take_Vec_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_S2(k); ensure!(ck_Vec_S2(&x, k) && addr() == ad_Vec_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_S2(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_S2(&x, k) && addr() == ad_Vec_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_S2(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_S2(k); let a = ad_Vec_S2(&x); let y = ffi::c_echo_Vec_S2(x, k); ensure!(addr() == a && ad_Vec_S2(&y) == a && ck_Vec_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_S2(200, mk_Vec_S2(k), -1.5, k, mk_Vec_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Vec_S2(k); let y = o.c_m_Vec_S2(x, k); ensure!(addr() == 0 && ck_Vec_S2(&y, k), "method"); }
  7 => { fn f(x: Vec<S2>, k: i32) -> Vec<S2> { note(if ck_Vec_S2(&x, k) { ad_Vec_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_S7(mut x: Vec<S7>, k: i32) -> bool { let a = ad_Vec_S7(&x); let ok = ck_Vec_S7(&x, k);  note(a); ok }
fn r_make_Vec_S7(k: i32) -> Vec<S7> { let x = mk_Vec_S7(k); note(ad_Vec_S7(&x)); x }
fn r_try_Vec_S7(k: i32, fail: bool) -> R<Vec<S7>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_S7(k); note(ad_Vec_S7(&x)); Ok(x) }
fn r_echo_Vec_S7(x: Vec<S7>, k: i32) -> Vec<S7> { note(if ck_Vec_S7(&x, k) { ad_Vec_S7(&x) } else { 1 }); x }
fn r_mix_Vec_S7(a: u8, x: Vec<S7>, b: f64, k: i32, y: Vec<S7>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_S7(&x, k) && b == -1.5 && ck_Vec_S7(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Vec_S7(&mut self, x: Vec<S7>, k: i32) -> Vec<S7> { note(if ck_RObj(self, 2) && ck_Vec_S7(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_S7(k); let a = ad_Vec_S7(&x); ensure!(ffi::c_take_Vec_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_S7(k); ensure!(ck_Vec_S7(&x, k) && addr() == ad_Vec_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_S7(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_S7(&x, k) && addr() == ad_Vec_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_S7(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_S7(k); let a = ad_Vec_S7(&x); let y = ffi::c_echo_Vec_S7(x, k); ensure!(addr() == a && ad_Vec_S7(&y) == a && ck_Vec_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_S7(200, mk_Vec_S7(k), -1.5, k, mk_Vec_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Vec_S7(k); let y = o.c_m_Vec_S7(x, k); ensure!(addr() == 0 && ck_Vec_S7(&y, k), "method"); }
  7 => { fn f(x: Vec<S7>, k: i32) -> Vec<S7> { note(if ck_Vec_S7(&x, k) { ad_Vec_S7(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_S7(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_RObj(mut x: Vec<RObj>, k: i32) -> bool { let a = ad_Vec_RObj(&x); let ok = ck_Vec_RObj(&x, k);  note(a); ok }
fn r_make_Vec_RObj(k: i32) -> Vec<RObj> { let x = mk_Vec_RObj(k); note(ad_Vec_RObj(&x)); x }
fn r_try_Vec_RObj(k: i32, fail: bool) -> R<Vec<RObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_RObj(k); note(ad_Vec_RObj(&x)); Ok(x) }
fn r_echo_Vec_RObj(x: Vec<RObj>, k: i32) -> Vec<RObj> { note(if ck_Vec_RObj(&x, k) { ad_Vec_RObj(&x) } else { 1 }); x }
fn r_mix_Vec_RObj(a: u8, x: Vec<RObj>, b: f64, k: i32, y: Vec<RObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_RObj(&x, k) && b == -1.5 && ck_Vec_RObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Vec_RObj(&self, x: Vec<RObj>, k: i32) -> Vec<RObj> { note(if ck_S3(self, 2) && ck_Vec_RObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_RObj(k); let a = ad_Vec_RObj(&x); ensure!(ffi::c_take_Vec_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_RObj(k); ensure!(ck_Vec_RObj(&x, k) && addr() == ad_Vec_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_RObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_RObj(&x, k) && addr() == ad_Vec_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_RObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_RObj(k); let a = ad_Vec_RObj(&x); let y = ffi::c_echo_Vec_RObj(x, k); ensure!(addr() == a && ad_Vec_RObj(&y) == a && ck_Vec_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_RObj(200, mk_Vec_RObj(k), -1.5, k, mk_Vec_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Vec_RObj(k); let y = o.c_m_Vec_RObj(x, k); ensure!(addr() == 0 && ck_Vec_RObj(&y, k), "method"); }
  7 => { fn f(x: Vec<RObj>, k: i32) -> Vec<RObj> { note(if ck_Vec_RObj(&x, k) { ad_Vec_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_Ei8(mut x: Vec<Ei8>, k: i32) -> bool { let a = ad_Vec_Ei8(&x); let ok = ck_Vec_Ei8(&x, k);  note(a); ok }
fn r_make_Vec_Ei8(k: i32) -> Vec<Ei8> { let x = mk_Vec_Ei8(k); note(ad_Vec_Ei8(&x)); x }
fn r_try_Vec_Ei8(k: i32, fail: bool) -> R<Vec<Ei8>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_Ei8(k); note(ad_Vec_Ei8(&x)); Ok(x) }
fn r_echo_Vec_Ei8(x: Vec<Ei8>, k: i32) -> Vec<Ei8> { note(if ck_Vec_Ei8(&x, k) { ad_Vec_Ei8(&x) } else { 1 }); x }
fn r_mix_Vec_Ei8(a: u8, x: Vec<Ei8>, b: f64, k: i32, y: Vec<Ei8>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_Ei8(&x, k) && b == -1.5 && ck_Vec_Ei8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Vec_Ei8(&mut self, x: Vec<Ei8>, k: i32) -> Vec<Ei8> { note(if ck_S3(self, 2) && ck_Vec_Ei8(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_Ei8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_Ei8(k); let a = ad_Vec_Ei8(&x); ensure!(ffi::c_take_Vec_Ei8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_Ei8(k); ensure!(ck_Vec_Ei8(&x, k) && addr() == ad_Vec_Ei8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_Ei8(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_Ei8(&x, k) && addr() == ad_Vec_Ei8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_Ei8(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_Ei8(k); let a = ad_Vec_Ei8(&x); let y = ffi::c_echo_Vec_Ei8(x, k); ensure!(addr() == a && ad_Vec_Ei8(&y) == a && ck_Vec_Ei8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_Ei8(200, mk_Vec_Ei8(k), -1.5, k, mk_Vec_Ei8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Vec_Ei8(k); let y = o.c_m_Vec_Ei8(x, k); ensure!(addr() == 0 && ck_Vec_Ei8(&y, k), "method"); }
  7 => { fn f(x: Vec<Ei8>, k: i32) -> Vec<Ei8> { note(if ck_Vec_Ei8(&x, k) { ad_Vec_Ei8(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_Ei8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_Ei8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Vec_TrivA(mut x: Vec<TrivA>, k: i32) -> bool { let a = ad_Vec_TrivA(&x); let ok = ck_Vec_TrivA(&x, k);  note(a); ok }
fn r_make_Vec_TrivA(k: i32) -> Vec<TrivA> { let x = mk_Vec_TrivA(k); note(ad_Vec_TrivA(&x)); x }
fn r_try_Vec_TrivA(k: i32, fail: bool) -> R<Vec<TrivA>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Vec_TrivA(k); note(ad_Vec_TrivA(&x)); Ok(x) }
fn r_echo_Vec_TrivA(x: Vec<TrivA>, k: i32) -> Vec<TrivA> { note(if ck_Vec_TrivA(&x, k) { ad_Vec_TrivA(&x) } else { 1 }); x }
fn r_mix_Vec_TrivA(a: u8, x: Vec<TrivA>, b: f64, k: i32, y: Vec<TrivA>, c: u16) -> R<bool> { Ok(a == 200 && ck_Vec_TrivA(&x, k) && b == -1.5 && ck_Vec_TrivA(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Vec_TrivA(&self, x: Vec<TrivA>, k: i32) -> Vec<TrivA> { note(if ck_RObj(self, 2) && ck_Vec_TrivA(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Vec_TrivA(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Vec_TrivA(k); let a = ad_Vec_TrivA(&x); ensure!(ffi::c_take_Vec_TrivA(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Vec_TrivA(k); ensure!(ck_Vec_TrivA(&x, k) && addr() == ad_Vec_TrivA(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Vec_TrivA(k, false).map_err(|e| e.to_string())?; ensure!(ck_Vec_TrivA(&x, k) && addr() == ad_Vec_TrivA(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Vec_TrivA(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Vec_TrivA(k); let a = ad_Vec_TrivA(&x); let y = ffi::c_echo_Vec_TrivA(x, k); ensure!(addr() == a && ad_Vec_TrivA(&y) == a && ck_Vec_TrivA(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Vec_TrivA(200, mk_Vec_TrivA(k), -1.5, k, mk_Vec_TrivA((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Vec_TrivA(k); let y = o.c_m_Vec_TrivA(x, k); ensure!(addr() == 0 && ck_Vec_TrivA(&y, k), "method"); }
  7 => { fn f(x: Vec<TrivA>, k: i32) -> Vec<TrivA> { note(if ck_Vec_TrivA(&x, k) { ad_Vec_TrivA(&x) } else { 1 }); x } ensure!(ffi::c_cb_Vec_TrivA(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Vec_TrivA(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_CObj(mut x: UniquePtr<CObj>, k: i32) -> bool { let a = ad_UniquePtr_CObj(&x); let ok = ck_UniquePtr_CObj(&x, k);  note(a); ok }
fn r_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj> { let x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(&x)); x }
fn r_try_UniquePtr_CObj(k: i32, fail: bool) -> R<UniquePtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(&x)); Ok(x) }
fn r_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_UniquePtr_CObj(&x, k) { ad_UniquePtr_CObj(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CObj(&x, k) && b == -1.5 && ck_UniquePtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_UniquePtr_CObj(&mut self, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_RObj(self, 2) && ck_UniquePtr_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CObj(k); let a = ad_UniquePtr_CObj(&x); ensure!(ffi::c_take_UniquePtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CObj(k); ensure!(ck_UniquePtr_CObj(&x, k) && addr() == ad_UniquePtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CObj(&x, k) && addr() == ad_UniquePtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CObj(k); let a = ad_UniquePtr_CObj(&x); let y = ffi::c_echo_UniquePtr_CObj(x, k); ensure!(addr() == a && ad_UniquePtr_CObj(&y) == a && ck_UniquePtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CObj(200, mk_UniquePtr_CObj(k), -1.5, k, mk_UniquePtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_UniquePtr_CObj(k); let y = o.c_m_UniquePtr_CObj(x, k); ensure!(addr() == 0 && ck_UniquePtr_CObj(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_UniquePtr_CObj(&x, k) { ad_UniquePtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_CxxString(mut x: UniquePtr<CxxString>, k: i32) -> bool { let a = ad_UniquePtr_CxxString(&x); let ok = ck_UniquePtr_CxxString(&x, k);  note(a); ok }
fn r_make_UniquePtr_CxxString(k: i32) -> UniquePtr<CxxString> { let x = mk_UniquePtr_CxxString(k); note(ad_UniquePtr_CxxString(&x)); x }
fn r_try_UniquePtr_CxxString(k: i32, fail: bool) -> R<UniquePtr<CxxString>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CxxString(k); note(ad_UniquePtr_CxxString(&x)); Ok(x) }
fn r_echo_UniquePtr_CxxString(x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString> { note(if ck_UniquePtr_CxxString(&x, k) { ad_UniquePtr_CxxString(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CxxString(a: u8, x: UniquePtr<CxxString>, b: f64, k: i32, y: UniquePtr<CxxString>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CxxString(&x, k) && b == -1.5 && ck_UniquePtr_CxxString(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_UniquePtr_CxxString(&self, x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString> { note(if ck_S3(self, 2) && ck_UniquePtr_CxxString(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CxxString(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CxxString(k); let a = ad_UniquePtr_CxxString(&x); ensure!(ffi::c_take_UniquePtr_CxxString(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CxxString(k); ensure!(ck_UniquePtr_CxxString(&x, k) && addr() == ad_UniquePtr_CxxString(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CxxString(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CxxString(&x, k) && addr() == ad_UniquePtr_CxxString(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CxxString(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CxxString(k); let a = ad_UniquePtr_CxxString(&x); let y = ffi::c_echo_UniquePtr_CxxString(x, k); ensure!(addr() == a && ad_UniquePtr_CxxString(&y) == a && ck_UniquePtr_CxxString(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CxxString(200, mk_UniquePtr_CxxString(k), -1.5, k, mk_UniquePtr_CxxString((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_UniquePtr_CxxString(k); let y = o.c_m_UniquePtr_CxxString(x, k); ensure!(addr() == 0 && ck_UniquePtr_CxxString(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString> { note(if ck_UniquePtr_CxxString(&x, k) { ad_UniquePtr_CxxString(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CxxString(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CxxString(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_S2(mut x: UniquePtr<S2>, k: i32) -> bool { let a = ad_UniquePtr_S2(&x); let ok = ck_UniquePtr_S2(&x, k);  note(a); ok }
fn r_make_UniquePtr_S2(k: i32) -> UniquePtr<S2> { let x = mk_UniquePtr_S2(k); note(ad_UniquePtr_S2(&x)); x }
fn r_try_UniquePtr_S2(k: i32, fail: bool) -> R<UniquePtr<S2>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_S2(k); note(ad_UniquePtr_S2(&x)); Ok(x) }
fn r_echo_UniquePtr_S2(x: UniquePtr<S2>, k: i32) -> UniquePtr<S2> { note(if ck_UniquePtr_S2(&x, k) { ad_UniquePtr_S2(&x) } else { 1 }); x }
fn r_mix_UniquePtr_S2(a: u8, x: UniquePtr<S2>, b: f64, k: i32, y: UniquePtr<S2>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_S2(&x, k) && b == -1.5 && ck_UniquePtr_S2(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_UniquePtr_S2(&mut self, x: UniquePtr<S2>, k: i32) -> UniquePtr<S2> { note(if ck_S3(self, 2) && ck_UniquePtr_S2(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_S2(k); let a = ad_UniquePtr_S2(&x); ensure!(ffi::c_take_UniquePtr_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_S2(k); ensure!(ck_UniquePtr_S2(&x, k) && addr() == ad_UniquePtr_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_S2(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_S2(&x, k) && addr() == ad_UniquePtr_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_S2(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_S2(k); let a = ad_UniquePtr_S2(&x); let y = ffi::c_echo_UniquePtr_S2(x, k); ensure!(addr() == a && ad_UniquePtr_S2(&y) == a && ck_UniquePtr_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_S2(200, mk_UniquePtr_S2(k), -1.5, k, mk_UniquePtr_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_UniquePtr_S2(k); let y = o.c_m_UniquePtr_S2(x, k); ensure!(addr() == 0 && ck_UniquePtr_S2(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<S2>, k: i32) -> UniquePtr<S2> { note(if ck_UniquePtr_S2(&x, k) { ad_UniquePtr_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_S7(mut x: UniquePtr<S7>, k: i32) -> bool { let a = ad_UniquePtr_S7(&x); let ok = ck_UniquePtr_S7(&x, k);  note(a); ok }
fn r_make_UniquePtr_S7(k: i32) -> UniquePtr<S7> { let x = mk_UniquePtr_S7(k); note(ad_UniquePtr_S7(&x)); x }
fn r_try_UniquePtr_S7(k: i32, fail: bool) -> R<UniquePtr<S7>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_S7(k); note(ad_UniquePtr_S7(&x)); Ok(x) }
fn r_echo_UniquePtr_S7(x: UniquePtr<S7>, k: i32) -> UniquePtr<S7> { note(if ck_UniquePtr_S7(&x, k) { ad_UniquePtr_S7(&x) } else { 1 }); x }
fn r_mix_UniquePtr_S7(a: u8, x: UniquePtr<S7>, b: f64, k: i32, y: UniquePtr<S7>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_S7(&x, k) && b == -1.5 && ck_UniquePtr_S7(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_UniquePtr_S7(&self, x: UniquePtr<S7>, k: i32) -> UniquePtr<S7> { note(if ck_RObj(self, 2) && ck_UniquePtr_S7(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_S7(k); let a = ad_UniquePtr_S7(&x); ensure!(ffi::c_take_UniquePtr_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_S7(k); ensure!(ck_UniquePtr_S7(&x, k) && addr() == ad_UniquePtr_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_S7(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_S7(&x, k) && addr() == ad_UniquePtr_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_S7(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_S7(k); let a = ad_UniquePtr_S7(&x); let y = ffi::c_echo_UniquePtr_S7(x, k); ensure!(addr() == a && ad_UniquePtr_S7(&y) == a && ck_UniquePtr_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_S7(200, mk_UniquePtr_S7(k), -1.5, k, mk_UniquePtr_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_UniquePtr_S7(k); let y = o.c_m_UniquePtr_S7(x, k); ensure!(addr() == 0 && ck_UniquePtr_S7(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<S7>, k: i32) -> UniquePtr<S7> { note(if ck_UniquePtr_S7(&x, k) { ad_UniquePtr_S7(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_S7(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_TrivA(mut x: UniquePtr<TrivA>, k: i32) -> bool { let a = ad_UniquePtr_TrivA(&x); let ok = ck_UniquePtr_TrivA(&x, k);  note(a); ok }
fn r_make_UniquePtr_TrivA(k: i32) -> UniquePtr<TrivA> { let x = mk_UniquePtr_TrivA(k); note(ad_UniquePtr_TrivA(&x)); x }
fn r_try_UniquePtr_TrivA(k: i32, fail: bool) -> R<UniquePtr<TrivA>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_TrivA(k); note(ad_UniquePtr_TrivA(&x)); Ok(x) }
fn r_echo_UniquePtr_TrivA(x: UniquePtr<TrivA>, k: i32) -> UniquePtr<TrivA> { note(if ck_UniquePtr_TrivA(&x, k) { ad_UniquePtr_TrivA(&x) } else { 1 }); x }
fn r_mix_UniquePtr_TrivA(a: u8, x: UniquePtr<TrivA>, b: f64, k: i32, y: UniquePtr<TrivA>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_TrivA(&x, k) && b == -1.5 && ck_UniquePtr_TrivA(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_UniquePtr_TrivA(&mut self, x: UniquePtr<TrivA>, k: i32) -> UniquePtr<TrivA> { note(if ck_RObj(self, 2) && ck_UniquePtr_TrivA(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_TrivA(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_TrivA(k); let a = ad_UniquePtr_TrivA(&x); ensure!(ffi::c_take_UniquePtr_TrivA(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_TrivA(k); ensure!(ck_UniquePtr_TrivA(&x, k) && addr() == ad_UniquePtr_TrivA(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_TrivA(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_TrivA(&x, k) && addr() == ad_UniquePtr_TrivA(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_TrivA(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_TrivA(k); let a = ad_UniquePtr_TrivA(&x); let y = ffi::c_echo_UniquePtr_TrivA(x, k); ensure!(addr() == a && ad_UniquePtr_TrivA(&y) == a && ck_UniquePtr_TrivA(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_TrivA(200, mk_UniquePtr_TrivA(k), -1.5, k, mk_UniquePtr_TrivA((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_UniquePtr_TrivA(k); let y = o.c_m_UniquePtr_TrivA(x, k); ensure!(addr() == 0 && ck_UniquePtr_TrivA(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<TrivA>, k: i32) -> UniquePtr<TrivA> { note(if ck_UniquePtr_TrivA(&x, k) { ad_UniquePtr_TrivA(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_TrivA(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_TrivA(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_CxxVector_u16(mut x: UniquePtr<CxxVector<u16>>, k: i32) -> bool { let a = ad_UniquePtr_CxxVector_u16(&x); let ok = ck_UniquePtr_CxxVector_u16(&x, k);  note(a); ok }
fn r_make_UniquePtr_CxxVector_u16(k: i32) -> UniquePtr<CxxVector<u16>> { let x = mk_UniquePtr_CxxVector_u16(k); note(ad_UniquePtr_CxxVector_u16(&x)); x }
fn r_try_UniquePtr_CxxVector_u16(k: i32, fail: bool) -> R<UniquePtr<CxxVector<u16>>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CxxVector_u16(k); note(ad_UniquePtr_CxxVector_u16(&x)); Ok(x) }
fn r_echo_UniquePtr_CxxVector_u16(x: UniquePtr<CxxVector<u16>>, k: i32) -> UniquePtr<CxxVector<u16>> { note(if ck_UniquePtr_CxxVector_u16(&x, k) { ad_UniquePtr_CxxVector_u16(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CxxVector_u16(a: u8, x: UniquePtr<CxxVector<u16>>, b: f64, k: i32, y: UniquePtr<CxxVector<u16>>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CxxVector_u16(&x, k) && b == -1.5 && ck_UniquePtr_CxxVector_u16(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_UniquePtr_CxxVector_u16(&self, x: UniquePtr<CxxVector<u16>>, k: i32) -> UniquePtr<CxxVector<u16>> { note(if ck_S3(self, 2) && ck_UniquePtr_CxxVector_u16(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CxxVector_u16(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CxxVector_u16(k); let a = ad_UniquePtr_CxxVector_u16(&x); ensure!(ffi::c_take_UniquePtr_CxxVector_u16(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CxxVector_u16(k); ensure!(ck_UniquePtr_CxxVector_u16(&x, k) && addr() == ad_UniquePtr_CxxVector_u16(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CxxVector_u16(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CxxVector_u16(&x, k) && addr() == ad_UniquePtr_CxxVector_u16(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CxxVector_u16(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CxxVector_u16(k); let a = ad_UniquePtr_CxxVector_u16(&x); let y = ffi::c_echo_UniquePtr_CxxVector_u16(x, k); ensure!(addr() == a && ad_UniquePtr_CxxVector_u16(&y) == a && ck_UniquePtr_CxxVector_u16(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CxxVector_u16(200, mk_UniquePtr_CxxVector_u16(k), -1.5, k, mk_UniquePtr_CxxVector_u16((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_UniquePtr_CxxVector_u16(k); let y = o.c_m_UniquePtr_CxxVector_u16(x, k); ensure!(addr() == 0 && ck_UniquePtr_CxxVector_u16(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CxxVector<u16>>, k: i32) -> UniquePtr<CxxVector<u16>> { note(if ck_UniquePtr_CxxVector_u16(&x, k) { ad_UniquePtr_CxxVector_u16(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CxxVector_u16(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CxxVector_u16(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_CxxVector_CxxString(mut x: UniquePtr<CxxVector<CxxString>>, k: i32) -> bool { let a = ad_UniquePtr_CxxVector_CxxString(&x); let ok = ck_UniquePtr_CxxVector_CxxString(&x, k);  note(a); ok }
fn r_make_UniquePtr_CxxVector_CxxString(k: i32) -> UniquePtr<CxxVector<CxxString>> { let x = mk_UniquePtr_CxxVector_CxxString(k); note(ad_UniquePtr_CxxVector_CxxString(&x)); x }
fn r_try_UniquePtr_CxxVector_CxxString(k: i32, fail: bool) -> R<UniquePtr<CxxVector<CxxString>>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CxxVector_CxxString(k); note(ad_UniquePtr_CxxVector_CxxString(&x)); Ok(x) }
fn r_echo_UniquePtr_CxxVector_CxxString(x: UniquePtr<CxxVector<CxxString>>, k: i32) -> UniquePtr<CxxVector<CxxString>> { note(if ck_UniquePtr_CxxVector_CxxString(&x, k) { ad_UniquePtr_CxxVector_CxxString(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CxxVector_CxxString(a: u8, x: UniquePtr<CxxVector<CxxString>>, b: f64, k: i32, y: UniquePtr<CxxVector<CxxString>>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CxxVector_CxxString(&x, k) && b == -1.5 && ck_UniquePtr_CxxVector_CxxString(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_UniquePtr_CxxVector_CxxString(&mut self, x: UniquePtr<CxxVector<CxxString>>, k: i32) -> UniquePtr<CxxVector<CxxString>> { note(if ck_S3(self, 2) && ck_UniquePtr_CxxVector_CxxString(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CxxVector_CxxString(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CxxVector_CxxString(k); let a = ad_UniquePtr_CxxVector_CxxString(&x); ensure!(ffi::c_take_UniquePtr_CxxVector_CxxString(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CxxVector_CxxString(k); ensure!(ck_UniquePtr_CxxVector_CxxString(&x, k) && addr() == ad_UniquePtr_CxxVector_CxxString(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CxxVector_CxxString(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CxxVector_CxxString(&x, k) && addr() == ad_UniquePtr_CxxVector_CxxString(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CxxVector_CxxString(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CxxVector_CxxString(k); let a = ad_UniquePtr_CxxVector_CxxString(&x); let y = ffi::c_echo_UniquePtr_CxxVector_CxxString(x, k); ensure!(addr() == a && ad_UniquePtr_CxxVector_CxxString(&y) == a && ck_UniquePtr_CxxVector_CxxString(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CxxVector_CxxString(200, mk_UniquePtr_CxxVector_CxxString(k), -1.5, k, mk_UniquePtr_CxxVector_CxxString((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_UniquePtr_CxxVector_CxxString(k); let y = o.c_m_UniquePtr_CxxVector_CxxString(x, k); ensure!(addr() == 0 && ck_UniquePtr_CxxVector_CxxString(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CxxVector<CxxString>>, k: i32) -> UniquePtr<CxxVector<CxxString>> { note(if ck_UniquePtr_CxxVector_CxxString(&x, k) { ad_UniquePtr_CxxVector_CxxString(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CxxVector_CxxString(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CxxVector_CxxString(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_CxxVector_CObj(mut x: UniquePtr<CxxVector<CObj>>, k: i32) -> bool { let a = ad_UniquePtr_CxxVector_CObj(&x); let ok = ck_UniquePtr_CxxVector_CObj(&x, k);  note(a); ok }
fn r_make_UniquePtr_CxxVector_CObj(k: i32) -> UniquePtr<CxxVector<CObj>> { let x = mk_UniquePtr_CxxVector_CObj(k); note(ad_UniquePtr_CxxVector_CObj(&x)); x }
fn r_try_UniquePtr_CxxVector_CObj(k: i32, fail: bool) -> R<UniquePtr<CxxVector<CObj>>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CxxVector_CObj(k); note(ad_UniquePtr_CxxVector_CObj(&x)); Ok(x) }
fn r_echo_UniquePtr_CxxVector_CObj(x: UniquePtr<CxxVector<CObj>>, k: i32) -> UniquePtr<CxxVector<CObj>> { note(if ck_UniquePtr_CxxVector_CObj(&x, k) { ad_UniquePtr_CxxVector_CObj(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CxxVector_CObj(a: u8, x: UniquePtr<CxxVector<CObj>>, b: f64, k: i32, y: UniquePtr<CxxVector<CObj>>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CxxVector_CObj(&x, k) && b == -1.5 && ck_UniquePtr_CxxVector_CObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_UniquePtr_CxxVector_CObj(&self, x: UniquePtr<CxxVector<CObj>>, k: i32) -> UniquePtr<CxxVector<CObj>> { note(if ck_RObj(self, 2) && ck_UniquePtr_CxxVector_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CxxVector_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CxxVector_CObj(k); let a = ad_UniquePtr_CxxVector_CObj(&x); ensure!(ffi::c_take_UniquePtr_CxxVector_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CxxVector_CObj(k); ensure!(ck_UniquePtr_CxxVector_CObj(&x, k) && addr() == ad_UniquePtr_CxxVector_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CxxVector_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CxxVector_CObj(&x, k) && addr() == ad_UniquePtr_CxxVector_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CxxVector_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CxxVector_CObj(k); let a = ad_UniquePtr_CxxVector_CObj(&x); let y = ffi::c_echo_UniquePtr_CxxVector_CObj(x, k); ensure!(addr() == a && ad_UniquePtr_CxxVector_CObj(&y) == a && ck_UniquePtr_CxxVector_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CxxVector_CObj(200, mk_UniquePtr_CxxVector_CObj(k), -1.5, k, mk_UniquePtr_CxxVector_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_UniquePtr_CxxVector_CObj(k); let y = o.c_m_UniquePtr_CxxVector_CObj(x, k); ensure!(addr() == 0 && ck_UniquePtr_CxxVector_CObj(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CxxVector<CObj>>, k: i32) -> UniquePtr<CxxVector<CObj>> { note(if ck_UniquePtr_CxxVector_CObj(&x, k) { ad_UniquePtr_CxxVector_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CxxVector_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CxxVector_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_CxxVector_S7(mut x: UniquePtr<CxxVector<S7>>, k: i32) -> bool { let a = ad_UniquePtr_CxxVector_S7(&x); let ok = ck_UniquePtr_CxxVector_S7(&x, k);  note(a); ok }
fn r_make_UniquePtr_CxxVector_S7(k: i32) -> UniquePtr<CxxVector<S7>> { let x = mk_UniquePtr_CxxVector_S7(k); note(ad_UniquePtr_CxxVector_S7(&x)); x }
fn r_try_UniquePtr_CxxVector_S7(k: i32, fail: bool) -> R<UniquePtr<CxxVector<S7>>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CxxVector_S7(k); note(ad_UniquePtr_CxxVector_S7(&x)); Ok(x) }
fn r_echo_UniquePtr_CxxVector_S7(x: UniquePtr<CxxVector<S7>>, k: i32) -> UniquePtr<CxxVector<S7>> { note(if ck_UniquePtr_CxxVector_S7(&x, k) { ad_UniquePtr_CxxVector_S7(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CxxVector_S7(a: u8, x: UniquePtr<CxxVector<S7>>, b: f64, k: i32, y: UniquePtr<CxxVector<S7>>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CxxVector_S7(&x, k) && b == -1.5 && ck_UniquePtr_CxxVector_S7(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_UniquePtr_CxxVector_S7(&mut self, x: UniquePtr<CxxVector<S7>>, k: i32) -> UniquePtr<CxxVector<S7>> { note(if ck_RObj(self, 2) && ck_UniquePtr_CxxVector_S7(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CxxVector_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CxxVector_S7(k); let a = ad_UniquePtr_CxxVector_S7(&x); ensure!(ffi::c_take_UniquePtr_CxxVector_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CxxVector_S7(k); ensure!(ck_UniquePtr_CxxVector_S7(&x, k) && addr() == ad_UniquePtr_CxxVector_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CxxVector_S7(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CxxVector_S7(&x, k) && addr() == ad_UniquePtr_CxxVector_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CxxVector_S7(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CxxVector_S7(k); let a = ad_UniquePtr_CxxVector_S7(&x); let y = ffi::c_echo_UniquePtr_CxxVector_S7(x, k); ensure!(addr() == a && ad_UniquePtr_CxxVector_S7(&y) == a && ck_UniquePtr_CxxVector_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CxxVector_S7(200, mk_UniquePtr_CxxVector_S7(k), -1.5, k, mk_UniquePtr_CxxVector_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_UniquePtr_CxxVector_S7(k); let y = o.c_m_UniquePtr_CxxVector_S7(x, k); ensure!(addr() == 0 && ck_UniquePtr_CxxVector_S7(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CxxVector<S7>>, k: i32) -> UniquePtr<CxxVector<S7>> { note(if ck_UniquePtr_CxxVector_S7(&x, k) { ad_UniquePtr_CxxVector_S7(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CxxVector_S7(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CxxVector_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_CxxVector_f64(mut x: UniquePtr<CxxVector<f64>>, k: i32) -> bool { let a = ad_UniquePtr_CxxVector_f64(&x); let ok = ck_UniquePtr_CxxVector_f64(&x, k);  note(a); ok }
fn r_make_UniquePtr_CxxVector_f64(k: i32) -> UniquePtr<CxxVector<f64>> { let x = mk_UniquePtr_CxxVector_f64(k); note(ad_UniquePtr_CxxVector_f64(&x)); x }
fn r_try_UniquePtr_CxxVector_f64(k: i32, fail: bool) -> R<UniquePtr<CxxVector<f64>>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CxxVector_f64(k); note(ad_UniquePtr_CxxVector_f64(&x)); Ok(x) }
fn r_echo_UniquePtr_CxxVector_f64(x: UniquePtr<CxxVector<f64>>, k: i32) -> UniquePtr<CxxVector<f64>> { note(if ck_UniquePtr_CxxVector_f64(&x, k) { ad_UniquePtr_CxxVector_f64(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CxxVector_f64(a: u8, x: UniquePtr<CxxVector<f64>>, b: f64, k: i32, y: UniquePtr<CxxVector<f64>>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CxxVector_f64(&x, k) && b == -1.5 && ck_UniquePtr_CxxVector_f64(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_UniquePtr_CxxVector_f64(&self, x: UniquePtr<CxxVector<f64>>, k: i32) -> UniquePtr<CxxVector<f64>> { note(if ck_S3(self, 2) && ck_UniquePtr_CxxVector_f64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CxxVector_f64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CxxVector_f64(k); let a = ad_UniquePtr_CxxVector_f64(&x); ensure!(ffi::c_take_UniquePtr_CxxVector_f64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CxxVector_f64(k); ensure!(ck_UniquePtr_CxxVector_f64(&x, k) && addr() == ad_UniquePtr_CxxVector_f64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CxxVector_f64(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CxxVector_f64(&x, k) && addr() == ad_UniquePtr_CxxVector_f64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CxxVector_f64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CxxVector_f64(k); let a = ad_UniquePtr_CxxVector_f64(&x); let y = ffi::c_echo_UniquePtr_CxxVector_f64(x, k); ensure!(addr() == a && ad_UniquePtr_CxxVector_f64(&y) == a && ck_UniquePtr_CxxVector_f64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CxxVector_f64(200, mk_UniquePtr_CxxVector_f64(k), -1.5, k, mk_UniquePtr_CxxVector_f64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_UniquePtr_CxxVector_f64(k); let y = o.c_m_UniquePtr_CxxVector_f64(x, k); ensure!(addr() == 0 && ck_UniquePtr_CxxVector_f64(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CxxVector<f64>>, k: i32) -> UniquePtr<CxxVector<f64>> { note(if ck_UniquePtr_CxxVector_f64(&x, k) { ad_UniquePtr_CxxVector_f64(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CxxVector_f64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CxxVector_f64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_SharedPtr_CObj(mut x: SharedPtr<CObj>, k: i32) -> bool { let a = ad_SharedPtr_CObj(&x); let ok = ck_SharedPtr_CObj(&x, k);  note(a); ok }
fn r_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj> { let x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(&x)); x }
fn r_try_SharedPtr_CObj(k: i32, fail: bool) -> R<SharedPtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(&x)); Ok(x) }
fn r_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_SharedPtr_CObj(&x, k) { ad_SharedPtr_CObj(&x) } else { 1 }); x }
fn r_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_SharedPtr_CObj(&x, k) && b == -1.5 && ck_SharedPtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_SharedPtr_CObj(&mut self, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_S3(self, 2) && ck_SharedPtr_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_SharedPtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_SharedPtr_CObj(k); let a = ad_SharedPtr_CObj(&x); ensure!(ffi::c_take_SharedPtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_SharedPtr_CObj(k); ensure!(ck_SharedPtr_CObj(&x, k) && addr() == ad_SharedPtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_SharedPtr_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_SharedPtr_CObj(&x, k) && addr() == ad_SharedPtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_SharedPtr_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_SharedPtr_CObj(k); let a = ad_SharedPtr_CObj(&x); let y = ffi::c_echo_SharedPtr_CObj(x, k); ensure!(addr() == a && ad_SharedPtr_CObj(&y) == a && ck_SharedPtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_SharedPtr_CObj(200, mk_SharedPtr_CObj(k), -1.5, k, mk_SharedPtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_SharedPtr_CObj(k); let y = o.c_m_SharedPtr_CObj(x, k); ensure!(addr() == 0 && ck_SharedPtr_CObj(&y, k), "method"); }
  7 => { fn f(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_SharedPtr_CObj(&x, k) { ad_SharedPtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_SharedPtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_SharedPtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_SharedPtr_CxxString(mut x: SharedPtr<CxxString>, k: i32) -> bool { let a = ad_SharedPtr_CxxString(&x); let ok = ck_SharedPtr_CxxString(&x, k);  note(a); ok }
fn r_make_SharedPtr_CxxString(k: i32) -> SharedPtr<CxxString> { let x = mk_SharedPtr_CxxString(k); note(ad_SharedPtr_CxxString(&x)); x }
fn r_try_SharedPtr_CxxString(k: i32, fail: bool) -> R<SharedPtr<CxxString>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_SharedPtr_CxxString(k); note(ad_SharedPtr_CxxString(&x)); Ok(x) }
fn r_echo_SharedPtr_CxxString(x: SharedPtr<CxxString>, k: i32) -> SharedPtr<CxxString> { note(if ck_SharedPtr_CxxString(&x, k) { ad_SharedPtr_CxxString(&x) } else { 1 }); x }
fn r_mix_SharedPtr_CxxString(a: u8, x: SharedPtr<CxxString>, b: f64, k: i32, y: SharedPtr<CxxString>, c: u16) -> R<bool> { Ok(a == 200 && ck_SharedPtr_CxxString(&x, k) && b == -1.5 && ck_SharedPtr_CxxString(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_SharedPtr_CxxString(&self, x: SharedPtr<CxxString>, k: i32) -> SharedPtr<CxxString> { note(if ck_RObj(self, 2) && ck_SharedPtr_CxxString(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_SharedPtr_CxxString(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_SharedPtr_CxxString(k); let a = ad_SharedPtr_CxxString(&x); ensure!(ffi::c_take_SharedPtr_CxxString(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_SharedPtr_CxxString(k); ensure!(ck_SharedPtr_CxxString(&x, k) && addr() == ad_SharedPtr_CxxString(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_SharedPtr_CxxString(k, false).map_err(|e| e.to_string())?; ensure!(ck_SharedPtr_CxxString(&x, k) && addr() == ad_SharedPtr_CxxString(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_SharedPtr_CxxString(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_SharedPtr_CxxString(k); let a = ad_SharedPtr_CxxString(&x); let y = ffi::c_echo_SharedPtr_CxxString(x, k); ensure!(addr() == a && ad_SharedPtr_CxxString(&y) == a && ck_SharedPtr_CxxString(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_SharedPtr_CxxString(200, mk_SharedPtr_CxxString(k), -1.5, k, mk_SharedPtr_CxxString((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_SharedPtr_CxxString(k); let y = o.c_m_SharedPtr_CxxString(x, k); ensure!(addr() == 0 && ck_SharedPtr_CxxString(&y, k), "method"); }
  7 => { fn f(x: SharedPtr<CxxString>, k: i32) -> SharedPtr<CxxString> { note(if ck_SharedPtr_CxxString(&x, k) { ad_SharedPtr_CxxString(&x) } else { 1 }); x } ensure!(ffi::c_cb_SharedPtr_CxxString(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_SharedPtr_CxxString(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_SharedPtr_u32(mut x: SharedPtr<u32>, k: i32) -> bool { let a = ad_SharedPtr_u32(&x); let ok = ck_SharedPtr_u32(&x, k);  note(a); ok }
fn r_make_SharedPtr_u32(k: i32) -> SharedPtr<u32> { let x = mk_SharedPtr_u32(k); note(ad_SharedPtr_u32(&x)); x }
fn r_try_SharedPtr_u32(k: i32, fail: bool) -> R<SharedPtr<u32>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_SharedPtr_u32(k); note(ad_SharedPtr_u32(&x)); Ok(x) }
fn r_echo_SharedPtr_u32(x: SharedPtr<u32>, k: i32) -> SharedPtr<u32> { note(if ck_SharedPtr_u32(&x, k) { ad_SharedPtr_u32(&x) } else { 1 }); x }
fn r_mix_SharedPtr_u32(a: u8, x: SharedPtr<u32>, b: f64, k: i32, y: SharedPtr<u32>, c: u16) -> R<bool> { Ok(a == 200 && ck_SharedPtr_u32(&x, k) && b == -1.5 && ck_SharedPtr_u32(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_SharedPtr_u32(&mut self, x: SharedPtr<u32>, k: i32) -> SharedPtr<u32> { note(if ck_RObj(self, 2) && ck_SharedPtr_u32(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_SharedPtr_u32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_SharedPtr_u32(k); let a = ad_SharedPtr_u32(&x); ensure!(ffi::c_take_SharedPtr_u32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_SharedPtr_u32(k); ensure!(ck_SharedPtr_u32(&x, k) && addr() == ad_SharedPtr_u32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_SharedPtr_u32(k, false).map_err(|e| e.to_string())?; ensure!(ck_SharedPtr_u32(&x, k) && addr() == ad_SharedPtr_u32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_SharedPtr_u32(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_SharedPtr_u32(k); let a = ad_SharedPtr_u32(&x); let y = ffi::c_echo_SharedPtr_u32(x, k); ensure!(addr() == a && ad_SharedPtr_u32(&y) == a && ck_SharedPtr_u32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_SharedPtr_u32(200, mk_SharedPtr_u32(k), -1.5, k, mk_SharedPtr_u32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_SharedPtr_u32(k); let y = o.c_m_SharedPtr_u32(x, k); ensure!(addr() == 0 && ck_SharedPtr_u32(&y, k), "method"); }
  7 => { fn f(x: SharedPtr<u32>, k: i32) -> SharedPtr<u32> { note(if ck_SharedPtr_u32(&x, k) { ad_SharedPtr_u32(&x) } else { 1 }); x } ensure!(ffi::c_cb_SharedPtr_u32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_SharedPtr_u32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_SharedPtr_bool(mut x: SharedPtr<bool>, k: i32) -> bool { let a = ad_SharedPtr_bool(&x); let ok = ck_SharedPtr_bool(&x, k);  note(a); ok }
fn r_make_SharedPtr_bool(k: i32) -> SharedPtr<bool> { let x = mk_SharedPtr_bool(k); note(ad_SharedPtr_bool(&x)); x }
fn r_try_SharedPtr_bool(k: i32, fail: bool) -> R<SharedPtr<bool>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_SharedPtr_bool(k); note(ad_SharedPtr_bool(&x)); Ok(x) }
fn r_echo_SharedPtr_bool(x: SharedPtr<bool>, k: i32) -> SharedPtr<bool> { note(if ck_SharedPtr_bool(&x, k) { ad_SharedPtr_bool(&x) } else { 1 }); x }
fn r_mix_SharedPtr_bool(a: u8, x: SharedPtr<bool>, b: f64, k: i32, y: SharedPtr<bool>, c: u16) -> R<bool> { Ok(a == 200 && ck_SharedPtr_bool(&x, k) && b == -1.5 && ck_SharedPtr_bool(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_SharedPtr_bool(&self, x: SharedPtr<bool>, k: i32) -> SharedPtr<bool> { note(if ck_S3(self, 2) && ck_SharedPtr_bool(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_SharedPtr_bool(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_SharedPtr_bool(k); let a = ad_SharedPtr_bool(&x); ensure!(ffi::c_take_SharedPtr_bool(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_SharedPtr_bool(k); ensure!(ck_SharedPtr_bool(&x, k) && addr() == ad_SharedPtr_bool(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_SharedPtr_bool(k, false).map_err(|e| e.to_string())?; ensure!(ck_SharedPtr_bool(&x, k) && addr() == ad_SharedPtr_bool(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_SharedPtr_bool(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_SharedPtr_bool(k); let a = ad_SharedPtr_bool(&x); let y = ffi::c_echo_SharedPtr_bool(x, k); ensure!(addr() == a && ad_SharedPtr_bool(&y) == a && ck_SharedPtr_bool(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_SharedPtr_bool(200, mk_SharedPtr_bool(k), -1.5, k, mk_SharedPtr_bool((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_SharedPtr_bool(k); let y = o.c_m_SharedPtr_bool(x, k); ensure!(addr() == 0 && ck_SharedPtr_bool(&y, k), "method"); }
  7 => { fn f(x: SharedPtr<bool>, k: i32) -> SharedPtr<bool> { note(if ck_SharedPtr_bool(&x, k) { ad_SharedPtr_bool(&x) } else { 1 }); x } ensure!(ffi::c_cb_SharedPtr_bool(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_SharedPtr_bool(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_SharedPtr_f64(mut x: SharedPtr<f64>, k: i32) -> bool { let a = ad_SharedPtr_f64(&x); let ok = ck_SharedPtr_f64(&x, k);  note(a); ok }
fn r_make_SharedPtr_f64(k: i32) -> SharedPtr<f64> { let x = mk_SharedPtr_f64(k); note(ad_SharedPtr_f64(&x)); x }
fn r_try_SharedPtr_f64(k: i32, fail: bool) -> R<SharedPtr<f64>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_SharedPtr_f64(k); note(ad_SharedPtr_f64(&x)); Ok(x) }
fn r_echo_SharedPtr_f64(x: SharedPtr<f64>, k: i32) -> SharedPtr<f64> { note(if ck_SharedPtr_f64(&x, k) { ad_SharedPtr_f64(&x) } else { 1 }); x }
fn r_mix_SharedPtr_f64(a: u8, x: SharedPtr<f64>, b: f64, k: i32, y: SharedPtr<f64>, c: u16) -> R<bool> { Ok(a == 200 && ck_SharedPtr_f64(&x, k) && b == -1.5 && ck_SharedPtr_f64(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_SharedPtr_f64(&mut self, x: SharedPtr<f64>, k: i32) -> SharedPtr<f64> { note(if ck_S3(self, 2) && ck_SharedPtr_f64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_SharedPtr_f64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_SharedPtr_f64(k); let a = ad_SharedPtr_f64(&x); ensure!(ffi::c_take_SharedPtr_f64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_SharedPtr_f64(k); ensure!(ck_SharedPtr_f64(&x, k) && addr() == ad_SharedPtr_f64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_SharedPtr_f64(k, false).map_err(|e| e.to_string())?; ensure!(ck_SharedPtr_f64(&x, k) && addr() == ad_SharedPtr_f64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_SharedPtr_f64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_SharedPtr_f64(k); let a = ad_SharedPtr_f64(&x); let y = ffi::c_echo_SharedPtr_f64(x, k); ensure!(addr() == a && ad_SharedPtr_f64(&y) == a && ck_SharedPtr_f64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_SharedPtr_f64(200, mk_SharedPtr_f64(k), -1.5, k, mk_SharedPtr_f64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_SharedPtr_f64(k); let y = o.c_m_SharedPtr_f64(x, k); ensure!(addr() == 0 && ck_SharedPtr_f64(&y, k), "method"); }
  7 => { fn f(x: SharedPtr<f64>, k: i32) -> SharedPtr<f64> { note(if ck_SharedPtr_f64(&x, k) { ad_SharedPtr_f64(&x) } else { 1 }); x } ensure!(ffi::c_cb_SharedPtr_f64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_SharedPtr_f64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_SharedPtr_S7(mut x: SharedPtr<S7>, k: i32) -> bool { let a = ad_SharedPtr_S7(&x); let ok = ck_SharedPtr_S7(&x, k);  note(a); ok }
fn r_make_SharedPtr_S7(k: i32) -> SharedPtr<S7> { let x = mk_SharedPtr_S7(k); note(ad_SharedPtr_S7(&x)); x }
fn r_try_SharedPtr_S7(k: i32, fail: bool) -> R<SharedPtr<S7>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_SharedPtr_S7(k); note(ad_SharedPtr_S7(&x)); Ok(x) }
fn r_echo_SharedPtr_S7(x: SharedPtr<S7>, k: i32) -> SharedPtr<S7> { note(if ck_SharedPtr_S7(&x, k) { ad_SharedPtr_S7(&x) } else { 1 }); x }
fn r_mix_SharedPtr_S7(a: u8, x: SharedPtr<S7>, b: f64, k: i32, y: SharedPtr<S7>, c: u16) -> R<bool> { Ok(a == 200 && ck_SharedPtr_S7(&x, k) && b == -1.5 && ck_SharedPtr_S7(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_SharedPtr_S7(&self, x: SharedPtr<S7>, k: i32) -> SharedPtr<S7> { note(if ck_RObj(self, 2) && ck_SharedPtr_S7(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_SharedPtr_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_SharedPtr_S7(k); let a = ad_SharedPtr_S7(&x); ensure!(ffi::c_take_SharedPtr_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_SharedPtr_S7(k); ensure!(ck_SharedPtr_S7(&x, k) && addr() == ad_SharedPtr_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_SharedPtr_S7(k, false).map_err(|e| e.to_string())?; ensure!(ck_SharedPtr_S7(&x, k) && addr() == ad_SharedPtr_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_SharedPtr_S7(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_SharedPtr_S7(k); let a = ad_SharedPtr_S7(&x); let y = ffi::c_echo_SharedPtr_S7(x, k); ensure!(addr() == a && ad_SharedPtr_S7(&y) == a && ck_SharedPtr_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_SharedPtr_S7(200, mk_SharedPtr_S7(k), -1.5, k, mk_SharedPtr_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_SharedPtr_S7(k); let y = o.c_m_SharedPtr_S7(x, k); ensure!(addr() == 0 && ck_SharedPtr_S7(&y, k), "method"); }
  7 => { fn f(x: SharedPtr<S7>, k: i32) -> SharedPtr<S7> { note(if ck_SharedPtr_S7(&x, k) { ad_SharedPtr_S7(&x) } else { 1 }); x } ensure!(ffi::c_cb_SharedPtr_S7(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_SharedPtr_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_SharedPtr_TrivA(mut x: SharedPtr<TrivA>, k: i32) -> bool { let a = ad_SharedPtr_TrivA(&x); let ok = ck_SharedPtr_TrivA(&x, k);  note(a); ok }
fn r_make_SharedPtr_TrivA(k: i32) -> SharedPtr<TrivA> { let x = mk_SharedPtr_TrivA(k); note(ad_SharedPtr_TrivA(&x)); x }
fn r_try_SharedPtr_TrivA(k: i32, fail: bool) -> R<SharedPtr<TrivA>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_SharedPtr_TrivA(k); note(ad_SharedPtr_TrivA(&x)); Ok(x) }
fn r_echo_SharedPtr_TrivA(x: SharedPtr<TrivA>, k: i32) -> SharedPtr<TrivA> { note(if ck_SharedPtr_TrivA(&x, k) { ad_SharedPtr_TrivA(&x) } else { 1 }); x }
fn r_mix_SharedPtr_TrivA(a: u8, x: SharedPtr<TrivA>, b: f64, k: i32, y: SharedPtr<TrivA>, c: u16) -> R<bool> { Ok(a == 200 && ck_SharedPtr_TrivA(&x, k) && b == -1.5 && ck_SharedPtr_TrivA(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_SharedPtr_TrivA(&mut self, x: SharedPtr<TrivA>, k: i32) -> SharedPtr<TrivA> { note(if ck_RObj(self, 2) && ck_SharedPtr_TrivA(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_SharedPtr_TrivA(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_SharedPtr_TrivA(k); let a = ad_SharedPtr_TrivA(&x); ensure!(ffi::c_take_SharedPtr_TrivA(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_SharedPtr_TrivA(k); ensure!(ck_SharedPtr_TrivA(&x, k) && addr() == ad_SharedPtr_TrivA(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_SharedPtr_TrivA(k, false).map_err(|e| e.to_string())?; ensure!(ck_SharedPtr_TrivA(&x, k) && addr() == ad_SharedPtr_TrivA(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_SharedPtr_TrivA(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_SharedPtr_TrivA(k); let a = ad_SharedPtr_TrivA(&x); let y = ffi::c_echo_SharedPtr_TrivA(x, k); ensure!(addr() == a && ad_SharedPtr_TrivA(&y) == a && ck_SharedPtr_TrivA(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_SharedPtr_TrivA(200, mk_SharedPtr_TrivA(k), -1.5, k, mk_SharedPtr_TrivA((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_SharedPtr_TrivA(k); let y = o.c_m_SharedPtr_TrivA(x, k); ensure!(addr() == 0 && ck_SharedPtr_TrivA(&y, k), "method"); }
  7 => { fn f(x: SharedPtr<TrivA>, k: i32) -> SharedPtr<TrivA> { note(if ck_SharedPtr_TrivA(&x, k) { ad_SharedPtr_TrivA(&x) } else { 1 }); x } ensure!(ffi::c_cb_SharedPtr_TrivA(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_SharedPtr_TrivA(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_WeakPtr_CObj(mut x: WeakPtr<CObj>, k: i32) -> bool { let a = ad_WeakPtr_CObj(&x); let ok = ck_WeakPtr_CObj(&x, k);  note(a); ok }
fn r_make_WeakPtr_CObj(k: i32) -> WeakPtr<CObj> { let x = mk_WeakPtr_CObj(k); note(ad_WeakPtr_CObj(&x)); x }
fn r_try_WeakPtr_CObj(k: i32, fail: bool) -> R<WeakPtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_WeakPtr_CObj(k); note(ad_WeakPtr_CObj(&x)); Ok(x) }
fn r_echo_WeakPtr_CObj(x: WeakPtr<CObj>, k: i32) -> WeakPtr<CObj> { note(if ck_WeakPtr_CObj(&x, k) { ad_WeakPtr_CObj(&x) } else { 1 }); x }
fn r_mix_WeakPtr_CObj(a: u8, x: WeakPtr<CObj>, b: f64, k: i32, y: WeakPtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_WeakPtr_CObj(&x, k) && b == -1.5 && ck_WeakPtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_WeakPtr_CObj(&self, x: WeakPtr<CObj>, k: i32) -> WeakPtr<CObj> { note(if ck_S3(self, 2) && ck_WeakPtr_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_WeakPtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_WeakPtr_CObj(k); let a = ad_WeakPtr_CObj(&x); ensure!(ffi::c_take_WeakPtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_WeakPtr_CObj(k); ensure!(ck_WeakPtr_CObj(&x, k) && addr() == ad_WeakPtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_WeakPtr_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_WeakPtr_CObj(&x, k) && addr() == ad_WeakPtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_WeakPtr_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_WeakPtr_CObj(k); let a = ad_WeakPtr_CObj(&x); let y = ffi::c_echo_WeakPtr_CObj(x, k); ensure!(addr() == a && ad_WeakPtr_CObj(&y) == a && ck_WeakPtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_WeakPtr_CObj(200, mk_WeakPtr_CObj(k), -1.5, k, mk_WeakPtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_WeakPtr_CObj(k); let y = o.c_m_WeakPtr_CObj(x, k); ensure!(addr() == 0 && ck_WeakPtr_CObj(&y, k), "method"); }
  7 => { fn f(x: WeakPtr<CObj>, k: i32) -> WeakPtr<CObj> { note(if ck_WeakPtr_CObj(&x, k) { ad_WeakPtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_WeakPtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_WeakPtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_WeakPtr_CxxString(mut x: WeakPtr<CxxString>, k: i32) -> bool { let a = ad_WeakPtr_CxxString(&x); let ok = ck_WeakPtr_CxxString(&x, k);  note(a); ok }
fn r_make_WeakPtr_CxxString(k: i32) -> WeakPtr<CxxString> { let x = mk_WeakPtr_CxxString(k); note(ad_WeakPtr_CxxString(&x)); x }
fn r_try_WeakPtr_CxxString(k: i32, fail: bool) -> R<WeakPtr<CxxString>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_WeakPtr_CxxString(k); note(ad_WeakPtr_CxxString(&x)); Ok(x) }
fn r_echo_WeakPtr_CxxString(x: WeakPtr<CxxString>, k: i32) -> WeakPtr<CxxString> { note(if ck_WeakPtr_CxxString(&x, k) { ad_WeakPtr_CxxString(&x) } else { 1 }); x }
fn r_mix_WeakPtr_CxxString(a: u8, x: WeakPtr<CxxString>, b: f64, k: i32, y: WeakPtr<CxxString>, c: u16) -> R<bool> { Ok(a == 200 && ck_WeakPtr_CxxString(&x, k) && b == -1.5 && ck_WeakPtr_CxxString(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_WeakPtr_CxxString(&mut self, x: WeakPtr<CxxString>, k: i32) -> WeakPtr<CxxString> { note(if ck_S3(self, 2) && ck_WeakPtr_CxxString(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_WeakPtr_CxxString(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_WeakPtr_CxxString(k); let a = ad_WeakPtr_CxxString(&x); ensure!(ffi::c_take_WeakPtr_CxxString(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_WeakPtr_CxxString(k); ensure!(ck_WeakPtr_CxxString(&x, k) && addr() == ad_WeakPtr_CxxString(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_WeakPtr_CxxString(k, false).map_err(|e| e.to_string())?; ensure!(ck_WeakPtr_CxxString(&x, k) && addr() == ad_WeakPtr_CxxString(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_WeakPtr_CxxString(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_WeakPtr_CxxString(k); let a = ad_WeakPtr_CxxString(&x); let y = ffi::c_echo_WeakPtr_CxxString(x, k); ensure!(addr() == a && ad_WeakPtr_CxxString(&y) == a && ck_WeakPtr_CxxString(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_WeakPtr_CxxString(200, mk_WeakPtr_CxxString(k), -1.5, k, mk_WeakPtr_CxxString((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_WeakPtr_CxxString(k); let y = o.c_m_WeakPtr_CxxString(x, k); ensure!(addr() == 0 && ck_WeakPtr_CxxString(&y, k), "method"); }
  7 => { fn f(x: WeakPtr<CxxString>, k: i32) -> WeakPtr<CxxString> { note(if ck_WeakPtr_CxxString(&x, k) { ad_WeakPtr_CxxString(&x) } else { 1 }); x } ensure!(ffi::c_cb_WeakPtr_CxxString(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_WeakPtr_CxxString(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_WeakPtr_i64(mut x: WeakPtr<i64>, k: i32) -> bool { let a = ad_WeakPtr_i64(&x); let ok = ck_WeakPtr_i64(&x, k);  note(a); ok }
fn r_make_WeakPtr_i64(k: i32) -> WeakPtr<i64> { let x = mk_WeakPtr_i64(k); note(ad_WeakPtr_i64(&x)); x }
fn r_try_WeakPtr_i64(k: i32, fail: bool) -> R<WeakPtr<i64>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_WeakPtr_i64(k); note(ad_WeakPtr_i64(&x)); Ok(x) }
fn r_echo_WeakPtr_i64(x: WeakPtr<i64>, k: i32) -> WeakPtr<i64> { note(if ck_WeakPtr_i64(&x, k) { ad_WeakPtr_i64(&x) } else { 1 }); x }
fn r_mix_WeakPtr_i64(a: u8, x: WeakPtr<i64>, b: f64, k: i32, y: WeakPtr<i64>, c: u16) -> R<bool> { Ok(a == 200 && ck_WeakPtr_i64(&x, k) && b == -1.5 && ck_WeakPtr_i64(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_WeakPtr_i64(&self, x: WeakPtr<i64>, k: i32) -> WeakPtr<i64> { note(if ck_RObj(self, 2) && ck_WeakPtr_i64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_WeakPtr_i64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_WeakPtr_i64(k); let a = ad_WeakPtr_i64(&x); ensure!(ffi::c_take_WeakPtr_i64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_WeakPtr_i64(k); ensure!(ck_WeakPtr_i64(&x, k) && addr() == ad_WeakPtr_i64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_WeakPtr_i64(k, false).map_err(|e| e.to_string())?; ensure!(ck_WeakPtr_i64(&x, k) && addr() == ad_WeakPtr_i64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_WeakPtr_i64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_WeakPtr_i64(k); let a = ad_WeakPtr_i64(&x); let y = ffi::c_echo_WeakPtr_i64(x, k); ensure!(addr() == a && ad_WeakPtr_i64(&y) == a && ck_WeakPtr_i64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_WeakPtr_i64(200, mk_WeakPtr_i64(k), -1.5, k, mk_WeakPtr_i64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_WeakPtr_i64(k); let y = o.c_m_WeakPtr_i64(x, k); ensure!(addr() == 0 && ck_WeakPtr_i64(&y, k), "method"); }
  7 => { fn f(x: WeakPtr<i64>, k: i32) -> WeakPtr<i64> { note(if ck_WeakPtr_i64(&x, k) { ad_WeakPtr_i64(&x) } else { 1 }); x } ensure!(ffi::c_cb_WeakPtr_i64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_WeakPtr_i64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_WeakPtr_S2(mut x: WeakPtr<S2>, k: i32) -> bool { let a = ad_WeakPtr_S2(&x); let ok = ck_WeakPtr_S2(&x, k);  note(a); ok }
fn r_make_WeakPtr_S2(k: i32) -> WeakPtr<S2> { let x = mk_WeakPtr_S2(k); note(ad_WeakPtr_S2(&x)); x }
fn r_try_WeakPtr_S2(k: i32, fail: bool) -> R<WeakPtr<S2>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_WeakPtr_S2(k); note(ad_WeakPtr_S2(&x)); Ok(x) }
fn r_echo_WeakPtr_S2(x: WeakPtr<S2>, k: i32) -> WeakPtr<S2> { note(if ck_WeakPtr_S2(&x, k) { ad_WeakPtr_S2(&x) } else { 1 }); x }
fn r_mix_WeakPtr_S2(a: u8, x: WeakPtr<S2>, b: f64, k: i32, y: WeakPtr<S2>, c: u16) -> R<bool> { Ok(a == 200 && ck_WeakPtr_S2(&x, k) && b == -1.5 && ck_WeakPtr_S2(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_WeakPtr_S2(&mut self, x: WeakPtr<S2>, k: i32) -> WeakPtr<S2> { note(if ck_RObj(self, 2) && ck_WeakPtr_S2(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_WeakPtr_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_WeakPtr_S2(k); let a = ad_WeakPtr_S2(&x); ensure!(ffi::c_take_WeakPtr_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_WeakPtr_S2(k); ensure!(ck_WeakPtr_S2(&x, k) && addr() == ad_WeakPtr_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_WeakPtr_S2(k, false).map_err(|e| e.to_string())?; ensure!(ck_WeakPtr_S2(&x, k) && addr() == ad_WeakPtr_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_WeakPtr_S2(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_WeakPtr_S2(k); let a = ad_WeakPtr_S2(&x); let y = ffi::c_echo_WeakPtr_S2(x, k); ensure!(addr() == a && ad_WeakPtr_S2(&y) == a && ck_WeakPtr_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_WeakPtr_S2(200, mk_WeakPtr_S2(k), -1.5, k, mk_WeakPtr_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_WeakPtr_S2(k); let y = o.c_m_WeakPtr_S2(x, k); ensure!(addr() == 0 && ck_WeakPtr_S2(&y, k), "method"); }
  7 => { fn f(x: WeakPtr<S2>, k: i32) -> WeakPtr<S2> { note(if ck_WeakPtr_S2(&x, k) { ad_WeakPtr_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_WeakPtr_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_WeakPtr_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_u8(mut x: &u8, k: i32) -> bool { let a = ad_ref_u8(&x); let ok = ck_ref_u8(&x, k);  note(a); ok }
fn r_make_ref_u8(z: &u8, k: i32) -> &u8 { let x = mk_ref_u8(k); note(ad_ref_u8(&x)); x }
fn r_try_ref_u8(z: &u8, k: i32, fail: bool) -> R<&u8> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_u8(k); note(ad_ref_u8(&x)); Ok(x) }
fn r_echo_ref_u8(x: &u8, k: i32) -> &u8 { note(if ck_ref_u8(&x, k) { ad_ref_u8(&x) } else { 1 }); x }
fn r_mix_ref_u8(a: u8, x: &u8, b: f64, k: i32, y: &u8, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_u8(&x, k) && b == -1.5 && ck_ref_u8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_u8(&self, x: &u8, k: i32) -> bool { ck_S3(self, 2) && ck_ref_u8(&x, k) } }
unsafe fn run_ref_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_u8(k); let a = ad_ref_u8(&x); ensure!(ffi::c_take_ref_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_u8(&Z, k); ensure!(ck_ref_u8(&x, k) && addr() == ad_ref_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_u8(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_u8(&x, k) && addr() == ad_ref_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_u8(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_u8(k); let a = ad_ref_u8(&x); let y = ffi::c_echo_ref_u8(x, k); ensure!(addr() == a && ad_ref_u8(&y) == a && ck_ref_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_u8(200, mk_ref_u8(k), -1.5, k, mk_ref_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_u8(k); ensure!(o.c_m_ref_u8(x, k), "method"); }
  7 => { fn f(x: &u8, k: i32) -> &u8 { note(if ck_ref_u8(&x, k) { ad_ref_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_u64(mut x: &u64, k: i32) -> bool { let a = ad_ref_u64(&x); let ok = ck_ref_u64(&x, k);  note(a); ok }
fn r_make_ref_u64(z: &u8, k: i32) -> &u64 { let x = mk_ref_u64(k); note(ad_ref_u64(&x)); x }
fn r_try_ref_u64(z: &u8, k: i32, fail: bool) -> R<&u64> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_u64(k); note(ad_ref_u64(&x)); Ok(x) }
fn r_echo_ref_u64(x: &u64, k: i32) -> &u64 { note(if ck_ref_u64(&x, k) { ad_ref_u64(&x) } else { 1 }); x }
fn r_mix_ref_u64(a: u8, x: &u64, b: f64, k: i32, y: &u64, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_u64(&x, k) && b == -1.5 && ck_ref_u64(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_u64(&mut self, x: &u64, k: i32) -> bool { ck_S3(self, 2) && ck_ref_u64(&x, k) } }
unsafe fn run_ref_u64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_u64(k); let a = ad_ref_u64(&x); ensure!(ffi::c_take_ref_u64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_u64(&Z, k); ensure!(ck_ref_u64(&x, k) && addr() == ad_ref_u64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_u64(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_u64(&x, k) && addr() == ad_ref_u64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_u64(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_u64(k); let a = ad_ref_u64(&x); let y = ffi::c_echo_ref_u64(x, k); ensure!(addr() == a && ad_ref_u64(&y) == a && ck_ref_u64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_u64(200, mk_ref_u64(k), -1.5, k, mk_ref_u64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ref_u64(k); ensure!(o.c_m_ref_u64(x, k), "method"); }
  7 => { fn f(x: &u64, k: i32) -> &u64 { note(if ck_ref_u64(&x, k) { ad_ref_u64(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_u64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_u64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_f64(mut x: &f64, k: i32) -> bool { let a = ad_ref_f64(&x); let ok = ck_ref_f64(&x, k);  note(a); ok }
fn r_make_ref_f64(z: &u8, k: i32) -> &f64 { let x = mk_ref_f64(k); note(ad_ref_f64(&x)); x }
fn r_try_ref_f64(z: &u8, k: i32, fail: bool) -> R<&f64> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_f64(k); note(ad_ref_f64(&x)); Ok(x) }
fn r_echo_ref_f64(x: &f64, k: i32) -> &f64 { note(if ck_ref_f64(&x, k) { ad_ref_f64(&x) } else { 1 }); x }
fn r_mix_ref_f64(a: u8, x: &f64, b: f64, k: i32, y: &f64, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_f64(&x, k) && b == -1.5 && ck_ref_f64(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_f64(&self, x: &f64, k: i32) -> bool { ck_RObj(self, 2) && ck_ref_f64(&x, k) } }
unsafe fn run_ref_f64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_f64(k); let a = ad_ref_f64(&x); ensure!(ffi::c_take_ref_f64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_f64(&Z, k); ensure!(ck_ref_f64(&x, k) && addr() == ad_ref_f64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_f64(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_f64(&x, k) && addr() == ad_ref_f64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_f64(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_f64(k); let a = ad_ref_f64(&x); let y = ffi::c_echo_ref_f64(x, k); ensure!(addr() == a && ad_ref_f64(&y) == a && ck_ref_f64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_f64(200, mk_ref_f64(k), -1.5, k, mk_ref_f64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ref_f64(k); ensure!(o.c_m_ref_f64(x, k), "method"); }
  7 => { fn f(x: &f64, k: i32) -> &f64 { note(if ck_ref_f64(&x, k) { ad_ref_f64(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_f64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_f64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_bool(mut x: &bool, k: i32) -> bool { let a = ad_ref_bool(&x); let ok = ck_ref_bool(&x, k);  note(a); ok }
fn r_make_ref_bool(z: &u8, k: i32) -> &bool { let x = mk_ref_bool(k); note(ad_ref_bool(&x)); x }
fn r_try_ref_bool(z: &u8, k: i32, fail: bool) -> R<&bool> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_bool(k); note(ad_ref_bool(&x)); Ok(x) }
fn r_echo_ref_bool(x: &bool, k: i32) -> &bool { note(if ck_ref_bool(&x, k) { ad_ref_bool(&x) } else { 1 }); x }
fn r_mix_ref_bool(a: u8, x: &bool, b: f64, k: i32, y: &bool, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_bool(&x, k) && b == -1.5 && ck_ref_bool(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_bool(&mut self, x: &bool, k: i32) -> bool { ck_RObj(self, 2) && ck_ref_bool(&x, k) } }
unsafe fn run_ref_bool(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_bool(k); let a = ad_ref_bool(&x); ensure!(ffi::c_take_ref_bool(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_bool(&Z, k); ensure!(ck_ref_bool(&x, k) && addr() == ad_ref_bool(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_bool(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_bool(&x, k) && addr() == ad_ref_bool(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_bool(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_bool(k); let a = ad_ref_bool(&x); let y = ffi::c_echo_ref_bool(x, k); ensure!(addr() == a && ad_ref_bool(&y) == a && ck_ref_bool(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_bool(200, mk_ref_bool(k), -1.5, k, mk_ref_bool((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_bool(k); ensure!(o.c_m_ref_bool(x, k), "method"); }
  7 => { fn f(x: &bool, k: i32) -> &bool { note(if ck_ref_bool(&x, k) { ad_ref_bool(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_bool(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_bool(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_String(mut x: &String, k: i32) -> bool { let a = ad_ref_String(&x); let ok = ck_ref_String(&x, k);  note(a); ok }
fn r_make_ref_String(z: &u8, k: i32) -> &String { let x = mk_ref_String(k); note(ad_ref_String(&x)); x }
fn r_try_ref_String(z: &u8, k: i32, fail: bool) -> R<&String> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_String(k); note(ad_ref_String(&x)); Ok(x) }
fn r_echo_ref_String(x: &String, k: i32) -> &String { note(if ck_ref_String(&x, k) { ad_ref_String(&x) } else { 1 }); x }
fn r_mix_ref_String(a: u8, x: &String, b: f64, k: i32, y: &String, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_String(&x, k) && b == -1.5 && ck_ref_String(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_String(&self, x: &String, k: i32) -> bool { ck_S3(self, 2) && ck_ref_String(&x, k) } }
unsafe fn run_ref_String(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_String(k); let a = ad_ref_String(&x); ensure!(ffi::c_take_ref_String(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_String(&Z, k); ensure!(ck_ref_String(&x, k) && addr() == ad_ref_String(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_String(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_String(&x, k) && addr() == ad_ref_String(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_String(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_String(k); let a = ad_ref_String(&x); let y = ffi::c_echo_ref_String(x, k); ensure!(addr() == a && ad_ref_String(&y) == a && ck_ref_String(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_String(200, mk_ref_String(k), -1.5, k, mk_ref_String((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_String(k); ensure!(o.c_m_ref_String(x, k), "method"); }
  7 => { fn f(x: &String, k: i32) -> &String { note(if ck_ref_String(&x, k) { ad_ref_String(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_String(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_String(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_S2(mut x: &S2, k: i32) -> bool { let a = ad_ref_S2(&x); let ok = ck_ref_S2(&x, k);  note(a); ok }
fn r_make_ref_S2(z: &u8, k: i32) -> &S2 { let x = mk_ref_S2(k); note(ad_ref_S2(&x)); x }
fn r_try_ref_S2(z: &u8, k: i32, fail: bool) -> R<&S2> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_S2(k); note(ad_ref_S2(&x)); Ok(x) }
fn r_echo_ref_S2(x: &S2, k: i32) -> &S2 { note(if ck_ref_S2(&x, k) { ad_ref_S2(&x) } else { 1 }); x }
fn r_mix_ref_S2(a: u8, x: &S2, b: f64, k: i32, y: &S2, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_S2(&x, k) && b == -1.5 && ck_ref_S2(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_S2(&mut self, x: &S2, k: i32) -> bool { ck_S3(self, 2) && ck_ref_S2(&x, k) } }
unsafe fn run_ref_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_S2(k); let a = ad_ref_S2(&x); ensure!(ffi::c_take_ref_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_S2(&Z, k); ensure!(ck_ref_S2(&x, k) && addr() == ad_ref_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_S2(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_S2(&x, k) && addr() == ad_ref_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_S2(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_S2(k); let a = ad_ref_S2(&x); let y = ffi::c_echo_ref_S2(x, k); ensure!(addr() == a && ad_ref_S2(&y) == a && ck_ref_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_S2(200, mk_ref_S2(k), -1.5, k, mk_ref_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ref_S2(k); ensure!(o.c_m_ref_S2(x, k), "method"); }
  7 => { fn f(x: &S2, k: i32) -> &S2 { note(if ck_ref_S2(&x, k) { ad_ref_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_S7(mut x: &S7, k: i32) -> bool { let a = ad_ref_S7(&x); let ok = ck_ref_S7(&x, k);  note(a); ok }
fn r_make_ref_S7(z: &u8, k: i32) -> &S7 { let x = mk_ref_S7(k); note(ad_ref_S7(&x)); x }
fn r_try_ref_S7(z: &u8, k: i32, fail: bool) -> R<&S7> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_S7(k); note(ad_ref_S7(&x)); Ok(x) }
fn r_echo_ref_S7(x: &S7, k: i32) -> &S7 { note(if ck_ref_S7(&x, k) { ad_ref_S7(&x) } else { 1 }); x }
fn r_mix_ref_S7(a: u8, x: &S7, b: f64, k: i32, y: &S7, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_S7(&x, k) && b == -1.5 && ck_ref_S7(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_S7(&self, x: &S7, k: i32) -> bool { ck_RObj(self, 2) && ck_ref_S7(&x, k) } }
unsafe fn run_ref_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_S7(k); let a = ad_ref_S7(&x); ensure!(ffi::c_take_ref_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_S7(&Z, k); ensure!(ck_ref_S7(&x, k) && addr() == ad_ref_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_S7(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_S7(&x, k) && addr() == ad_ref_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_S7(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_S7(k); let a = ad_ref_S7(&x); let y = ffi::c_echo_ref_S7(x, k); ensure!(addr() == a && ad_ref_S7(&y) == a && ck_ref_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_S7(200, mk_ref_S7(k), -1.5, k, mk_ref_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ref_S7(k); ensure!(o.c_m_ref_S7(x, k), "method"); }
  7 => { fn f(x: &S7, k: i32) -> &S7 { note(if ck_ref_S7(&x, k) { ad_ref_S7(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_S7(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_RObj(mut x: &RObj, k: i32) -> bool { let a = ad_ref_RObj(&x); let ok = ck_ref_RObj(&x, k);  note(a); ok }
fn r_make_ref_RObj(z: &u8, k: i32) -> &RObj { let x = mk_ref_RObj(k); note(ad_ref_RObj(&x)); x }
fn r_try_ref_RObj(z: &u8, k: i32, fail: bool) -> R<&RObj> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_RObj(k); note(ad_ref_RObj(&x)); Ok(x) }
fn r_echo_ref_RObj(x: &RObj, k: i32) -> &RObj { note(if ck_ref_RObj(&x, k) { ad_ref_RObj(&x) } else { 1 }); x }
fn r_mix_ref_RObj(a: u8, x: &RObj, b: f64, k: i32, y: &RObj, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_RObj(&x, k) && b == -1.5 && ck_ref_RObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_RObj(&mut self, x: &RObj, k: i32) -> bool { ck_RObj(self, 2) && ck_ref_RObj(&x, k) } }
unsafe fn run_ref_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_RObj(k); let a = ad_ref_RObj(&x); ensure!(ffi::c_take_ref_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_RObj(&Z, k); ensure!(ck_ref_RObj(&x, k) && addr() == ad_ref_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_RObj(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_RObj(&x, k) && addr() == ad_ref_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_RObj(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_RObj(k); let a = ad_ref_RObj(&x); let y = ffi::c_echo_ref_RObj(x, k); ensure!(addr() == a && ad_ref_RObj(&y) == a && ck_ref_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_RObj(200, mk_ref_RObj(k), -1.5, k, mk_ref_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_RObj(k); ensure!(o.c_m_ref_RObj(x, k), "method"); }
  7 => { fn f(x: &RObj, k: i32) -> &RObj { note(if ck_ref_RObj(&x, k) { ad_ref_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_CObj(mut x: &CObj, k: i32) -> bool { let a = ad_ref_CObj(&x); let ok = ck_ref_CObj(&x, k);  note(a); ok }
fn r_make_ref_CObj(z: &u8, k: i32) -> &CObj { let x = mk_ref_CObj(k); note(ad_ref_CObj(&x)); x }
fn r_try_ref_CObj(z: &u8, k: i32, fail: bool) -> R<&CObj> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_CObj(k); note(ad_ref_CObj(&x)); Ok(x) }
fn r_echo_ref_CObj(x: &CObj, k: i32) -> &CObj { note(if ck_ref_CObj(&x, k) { ad_ref_CObj(&x) } else { 1 }); x }
fn r_mix_ref_CObj(a: u8, x: &CObj, b: f64, k: i32, y: &CObj, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_CObj(&x, k) && b == -1.5 && ck_ref_CObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_CObj(&self, x: &CObj, k: i32) -> bool { ck_S3(self, 2) && ck_ref_CObj(&x, k) } }
unsafe fn run_ref_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_CObj(k); let a = ad_ref_CObj(&x); ensure!(ffi::c_take_ref_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_CObj(&Z, k); ensure!(ck_ref_CObj(&x, k) && addr() == ad_ref_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_CObj(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_CObj(&x, k) && addr() == ad_ref_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_CObj(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_CObj(k); let a = ad_ref_CObj(&x); let y = ffi::c_echo_ref_CObj(x, k); ensure!(addr() == a && ad_ref_CObj(&y) == a && ck_ref_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_CObj(200, mk_ref_CObj(k), -1.5, k, mk_ref_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_CObj(k); ensure!(o.c_m_ref_CObj(x, k), "method"); }
  7 => { fn f(x: &CObj, k: i32) -> &CObj { note(if ck_ref_CObj(&x, k) { ad_ref_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_CxxString(mut x: &CxxString, k: i32) -> bool { let a = ad_ref_CxxString(&x); let ok = ck_ref_CxxString(&x, k);  note(a); ok }
fn r_make_ref_CxxString(z: &u8, k: i32) -> &CxxString { let x = mk_ref_CxxString(k); note(ad_ref_CxxString(&x)); x }
fn r_try_ref_CxxString(z: &u8, k: i32, fail: bool) -> R<&CxxString> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_CxxString(k); note(ad_ref_CxxString(&x)); Ok(x) }
fn r_echo_ref_CxxString(x: &CxxString, k: i32) -> &CxxString { note(if ck_ref_CxxString(&x, k) { ad_ref_CxxString(&x) } else { 1 }); x }
fn r_mix_ref_CxxString(a: u8, x: &CxxString, b: f64, k: i32, y: &CxxString, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_CxxString(&x, k) && b == -1.5 && ck_ref_CxxString(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_CxxString(&mut self, x: &CxxString, k: i32) -> bool { ck_S3(self, 2) && ck_ref_CxxString(&x, k) } }
unsafe fn run_ref_CxxString(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_CxxString(k); let a = ad_ref_CxxString(&x); ensure!(ffi::c_take_ref_CxxString(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_CxxString(&Z, k); ensure!(ck_ref_CxxString(&x, k) && addr() == ad_ref_CxxString(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_CxxString(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_CxxString(&x, k) && addr() == ad_ref_CxxString(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_CxxString(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_CxxString(k); let a = ad_ref_CxxString(&x); let y = ffi::c_echo_ref_CxxString(x, k); ensure!(addr() == a && ad_ref_CxxString(&y) == a && ck_ref_CxxString(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_CxxString(200, mk_ref_CxxString(k), -1.5, k, mk_ref_CxxString((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ref_CxxString(k); ensure!(o.c_m_ref_CxxString(x, k), "method"); }
  7 => { fn f(x: &CxxString, k: i32) -> &CxxString { note(if ck_ref_CxxString(&x, k) { ad_ref_CxxString(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_CxxString(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_CxxString(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_CxxVector_u8(mut x: &CxxVector<u8>, k: i32) -> bool { let a = ad_ref_CxxVector_u8(&x); let ok = ck_ref_CxxVector_u8(&x, k);  note(a); ok }
fn r_make_ref_CxxVector_u8(z: &u8, k: i32) -> &CxxVector<u8> { let x = mk_ref_CxxVector_u8(k); note(ad_ref_CxxVector_u8(&x)); x }
fn r_try_ref_CxxVector_u8(z: &u8, k: i32, fail: bool) -> R<&CxxVector<u8>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_CxxVector_u8(k); note(ad_ref_CxxVector_u8(&x)); Ok(x) }
fn r_echo_ref_CxxVector_u8(x: &CxxVector<u8>, k: i32) -> &CxxVector<u8> { note(if ck_ref_CxxVector_u8(&x, k) { ad_ref_CxxVector_u8(&x) } else { 1 }); x }
fn r_mix_ref_CxxVector_u8(a: u8, x: &CxxVector<u8>, b: f64, k: i32, y: &CxxVector<u8>, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_CxxVector_u8(&x, k) && b == -1.5 && ck_ref_CxxVector_u8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_CxxVector_u8(&self, x: &CxxVector<u8>, k: i32) -> bool { ck_RObj(self, 2) && ck_ref_CxxVector_u8(&x, k) } }
unsafe fn run_ref_CxxVector_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_CxxVector_u8(k); let a = ad_ref_CxxVector_u8(&x); ensure!(ffi::c_take_ref_CxxVector_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_CxxVector_u8(&Z, k); ensure!(ck_ref_CxxVector_u8(&x, k) && addr() == ad_ref_CxxVector_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_CxxVector_u8(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_CxxVector_u8(&x, k) && addr() == ad_ref_CxxVector_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_CxxVector_u8(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_CxxVector_u8(k); let a = ad_ref_CxxVector_u8(&x); let y = ffi::c_echo_ref_CxxVector_u8(x, k); ensure!(addr() == a && ad_ref_CxxVector_u8(&y) == a && ck_ref_CxxVector_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_CxxVector_u8(200, mk_ref_CxxVector_u8(k), -1.5, k, mk_ref_CxxVector_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ref_CxxVector_u8(k); ensure!(o.c_m_ref_CxxVector_u8(x, k), "method"); }
  7 => { fn f(x: &CxxVector<u8>, k: i32) -> &CxxVector<u8> { note(if ck_ref_CxxVector_u8(&x, k) { ad_ref_CxxVector_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_CxxVector_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_CxxVector_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_CxxVector_CxxString(mut x: &CxxVector<CxxString>, k: i32) -> bool { let a = ad_ref_CxxVector_CxxString(&x); let ok = ck_ref_CxxVector_CxxString(&x, k);  note(a); ok }
fn r_make_ref_CxxVector_CxxString(z: &u8, k: i32) -> &CxxVector<CxxString> { let x = mk_ref_CxxVector_CxxString(k); note(ad_ref_CxxVector_CxxString(&x)); x }
fn r_try_ref_CxxVector_CxxString(z: &u8, k: i32, fail: bool) -> R<&CxxVector<CxxString>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_CxxVector_CxxString(k); note(ad_ref_CxxVector_CxxString(&x)); Ok(x) }
fn r_echo_ref_CxxVector_CxxString(x: &CxxVector<CxxString>, k: i32) -> &CxxVector<CxxString> { note(if ck_ref_CxxVector_CxxString(&x, k) { ad_ref_CxxVector_CxxString(&x) } else { 1 }); x }
fn r_mix_ref_CxxVector_CxxString(a: u8, x: &CxxVector<CxxString>, b: f64, k: i32, y: &CxxVector<CxxString>, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_CxxVector_CxxString(&x, k) && b == -1.5 && ck_ref_CxxVector_CxxString(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_CxxVector_CxxString(&mut self, x: &CxxVector<CxxString>, k: i32) -> bool { ck_RObj(self, 2) && ck_ref_CxxVector_CxxString(&x, k) } }
unsafe fn run_ref_CxxVector_CxxString(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_CxxVector_CxxString(k); let a = ad_ref_CxxVector_CxxString(&x); ensure!(ffi::c_take_ref_CxxVector_CxxString(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_CxxVector_CxxString(&Z, k); ensure!(ck_ref_CxxVector_CxxString(&x, k) && addr() == ad_ref_CxxVector_CxxString(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_CxxVector_CxxString(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_CxxVector_CxxString(&x, k) && addr() == ad_ref_CxxVector_CxxString(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_CxxVector_CxxString(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_CxxVector_CxxString(k); let a = ad_ref_CxxVector_CxxString(&x); let y = ffi::c_echo_ref_CxxVector_CxxString(x, k); ensure!(addr() == a && ad_ref_CxxVector_CxxString(&y) == a && ck_ref_CxxVector_CxxString(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_CxxVector_CxxString(200, mk_ref_CxxVector_CxxString(k), -1.5, k, mk_ref_CxxVector_CxxString((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_CxxVector_CxxString(k); ensure!(o.c_m_ref_CxxVector_CxxString(x, k), "method"); }
  7 => { fn f(x: &CxxVector<CxxString>, k: i32) -> &CxxVector<CxxString> { note(if ck_ref_CxxVector_CxxString(&x, k) { ad_ref_CxxVector_CxxString(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_CxxVector_CxxString(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_CxxVector_CxxString(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_Vec_u8(mut x: &Vec<u8>, k: i32) -> bool { let a = ad_ref_Vec_u8(&x); let ok = ck_ref_Vec_u8(&x, k);  note(a); ok }
fn r_make_ref_Vec_u8(z: &u8, k: i32) -> &Vec<u8> { let x = mk_ref_Vec_u8(k); note(ad_ref_Vec_u8(&x)); x }
fn r_try_ref_Vec_u8(z: &u8, k: i32, fail: bool) -> R<&Vec<u8>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_Vec_u8(k); note(ad_ref_Vec_u8(&x)); Ok(x) }
fn r_echo_ref_Vec_u8(x: &Vec<u8>, k: i32) -> &Vec<u8> { note(if ck_ref_Vec_u8(&x, k) { ad_ref_Vec_u8(&x) } else { 1 }); x }
fn r_mix_ref_Vec_u8(a: u8, x: &Vec<u8>, b: f64, k: i32, y: &Vec<u8>, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_Vec_u8(&x, k) && b == -1.5 && ck_ref_Vec_u8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_Vec_u8(&self, x: &Vec<u8>, k: i32) -> bool { ck_S3(self, 2) && ck_ref_Vec_u8(&x, k) } }
unsafe fn run_ref_Vec_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_Vec_u8(k); let a = ad_ref_Vec_u8(&x); ensure!(ffi::c_take_ref_Vec_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_Vec_u8(&Z, k); ensure!(ck_ref_Vec_u8(&x, k) && addr() == ad_ref_Vec_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_Vec_u8(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_Vec_u8(&x, k) && addr() == ad_ref_Vec_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_Vec_u8(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_Vec_u8(k); let a = ad_ref_Vec_u8(&x); let y = ffi::c_echo_ref_Vec_u8(x, k); ensure!(addr() == a && ad_ref_Vec_u8(&y) == a && ck_ref_Vec_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_Vec_u8(200, mk_ref_Vec_u8(k), -1.5, k, mk_ref_Vec_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_Vec_u8(k); ensure!(o.c_m_ref_Vec_u8(x, k), "method"); }
  7 => { fn f(x: &Vec<u8>, k: i32) -> &Vec<u8> { note(if ck_ref_Vec_u8(&x, k) { ad_ref_Vec_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_Vec_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_Vec_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_Vec_String(mut x: &Vec<String>, k: i32) -> bool { let a = ad_ref_Vec_String(&x); let ok = ck_ref_Vec_String(&x, k);  note(a); ok }
fn r_make_ref_Vec_String(z: &u8, k: i32) -> &Vec<String> { let x = mk_ref_Vec_String(k); note(ad_ref_Vec_String(&x)); x }
fn r_try_ref_Vec_String(z: &u8, k: i32, fail: bool) -> R<&Vec<String>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_Vec_String(k); note(ad_ref_Vec_String(&x)); Ok(x) }
fn r_echo_ref_Vec_String(x: &Vec<String>, k: i32) -> &Vec<String> { note(if ck_ref_Vec_String(&x, k) { ad_ref_Vec_String(&x) } else { 1 }); x }
fn r_mix_ref_Vec_String(a: u8, x: &Vec<String>, b: f64, k: i32, y: &Vec<String>, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_Vec_String(&x, k) && b == -1.5 && ck_ref_Vec_String(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_Vec_String(&mut self, x: &Vec<String>, k: i32) -> bool { ck_S3(self, 2) && ck_ref_Vec_String(&x, k) } }
unsafe fn run_ref_Vec_String(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_Vec_String(k); let a = ad_ref_Vec_String(&x); ensure!(ffi::c_take_ref_Vec_String(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_Vec_String(&Z, k); ensure!(ck_ref_Vec_String(&x, k) && addr() == ad_ref_Vec_String(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_Vec_String(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_Vec_String(&x, k) && addr() == ad_ref_Vec_String(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_Vec_String(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_Vec_String(k); let a = ad_ref_Vec_String(&x); let y = ffi::c_echo_ref_Vec_String(x, k); ensure!(addr() == a && ad_ref_Vec_String(&y) == a && ck_ref_Vec_String(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_Vec_String(200, mk_ref_Vec_String(k), -1.5, k, mk_ref_Vec_String((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ref_Vec_String(k); ensure!(o.c_m_ref_Vec_String(x, k), "method"); }
  7 => { fn f(x: &Vec<String>, k: i32) -> &Vec<String> { note(if ck_ref_Vec_String(&x, k) { ad_ref_Vec_String(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_Vec_String(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_Vec_String(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_Vec_RObj(mut x: &Vec<RObj>, k: i32) -> bool { let a = ad_ref_Vec_RObj(&x); let ok = ck_ref_Vec_RObj(&x, k);  note(a); ok }
fn r_make_ref_Vec_RObj(z: &u8, k: i32) -> &Vec<RObj> { let x = mk_ref_Vec_RObj(k); note(ad_ref_Vec_RObj(&x)); x }
fn r_try_ref_Vec_RObj(z: &u8, k: i32, fail: bool) -> R<&Vec<RObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_Vec_RObj(k); note(ad_ref_Vec_RObj(&x)); Ok(x) }
fn r_echo_ref_Vec_RObj(x: &Vec<RObj>, k: i32) -> &Vec<RObj> { note(if ck_ref_Vec_RObj(&x, k) { ad_ref_Vec_RObj(&x) } else { 1 }); x }
fn r_mix_ref_Vec_RObj(a: u8, x: &Vec<RObj>, b: f64, k: i32, y: &Vec<RObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_Vec_RObj(&x, k) && b == -1.5 && ck_ref_Vec_RObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_Vec_RObj(&self, x: &Vec<RObj>, k: i32) -> bool { ck_RObj(self, 2) && ck_ref_Vec_RObj(&x, k) } }
unsafe fn run_ref_Vec_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_Vec_RObj(k); let a = ad_ref_Vec_RObj(&x); ensure!(ffi::c_take_ref_Vec_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_Vec_RObj(&Z, k); ensure!(ck_ref_Vec_RObj(&x, k) && addr() == ad_ref_Vec_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_Vec_RObj(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_Vec_RObj(&x, k) && addr() == ad_ref_Vec_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_Vec_RObj(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_Vec_RObj(k); let a = ad_ref_Vec_RObj(&x); let y = ffi::c_echo_ref_Vec_RObj(x, k); ensure!(addr() == a && ad_ref_Vec_RObj(&y) == a && ck_ref_Vec_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_Vec_RObj(200, mk_ref_Vec_RObj(k), -1.5, k, mk_ref_Vec_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ref_Vec_RObj(k); ensure!(o.c_m_ref_Vec_RObj(x, k), "method"); }
  7 => { fn f(x: &Vec<RObj>, k: i32) -> &Vec<RObj> { note(if ck_ref_Vec_RObj(&x, k) { ad_ref_Vec_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_Vec_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_Vec_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_Box_RObj(mut x: &Box<RObj>, k: i32) -> bool { let a = ad_ref_Box_RObj(&x); let ok = ck_ref_Box_RObj(&x, k);  note(a); ok }
fn r_make_ref_Box_RObj(z: &u8, k: i32) -> &Box<RObj> { let x = mk_ref_Box_RObj(k); note(ad_ref_Box_RObj(&x)); x }
fn r_try_ref_Box_RObj(z: &u8, k: i32, fail: bool) -> R<&Box<RObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_Box_RObj(k); note(ad_ref_Box_RObj(&x)); Ok(x) }
fn r_echo_ref_Box_RObj(x: &Box<RObj>, k: i32) -> &Box<RObj> { note(if ck_ref_Box_RObj(&x, k) { ad_ref_Box_RObj(&x) } else { 1 }); x }
fn r_mix_ref_Box_RObj(a: u8, x: &Box<RObj>, b: f64, k: i32, y: &Box<RObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_Box_RObj(&x, k) && b == -1.5 && ck_ref_Box_RObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_Box_RObj(&mut self, x: &Box<RObj>, k: i32) -> bool { ck_RObj(self, 2) && ck_ref_Box_RObj(&x, k) } }
unsafe fn run_ref_Box_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_Box_RObj(k); let a = ad_ref_Box_RObj(&x); ensure!(ffi::c_take_ref_Box_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_Box_RObj(&Z, k); ensure!(ck_ref_Box_RObj(&x, k) && addr() == ad_ref_Box_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_Box_RObj(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_Box_RObj(&x, k) && addr() == ad_ref_Box_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_Box_RObj(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_Box_RObj(k); let a = ad_ref_Box_RObj(&x); let y = ffi::c_echo_ref_Box_RObj(x, k); ensure!(addr() == a && ad_ref_Box_RObj(&y) == a && ck_ref_Box_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_Box_RObj(200, mk_ref_Box_RObj(k), -1.5, k, mk_ref_Box_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_Box_RObj(k); ensure!(o.c_m_ref_Box_RObj(x, k), "method"); }
  7 => { fn f(x: &Box<RObj>, k: i32) -> &Box<RObj> { note(if ck_ref_Box_RObj(&x, k) { ad_ref_Box_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_Box_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_Box_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_UniquePtr_CObj(mut x: &UniquePtr<CObj>, k: i32) -> bool { let a = ad_ref_UniquePtr_CObj(&x); let ok = ck_ref_UniquePtr_CObj(&x, k);  note(a); ok }
fn r_make_ref_UniquePtr_CObj(z: &u8, k: i32) -> &UniquePtr<CObj> { let x = mk_ref_UniquePtr_CObj(k); note(ad_ref_UniquePtr_CObj(&x)); x }
fn r_try_ref_UniquePtr_CObj(z: &u8, k: i32, fail: bool) -> R<&UniquePtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_UniquePtr_CObj(k); note(ad_ref_UniquePtr_CObj(&x)); Ok(x) }
fn r_echo_ref_UniquePtr_CObj(x: &UniquePtr<CObj>, k: i32) -> &UniquePtr<CObj> { note(if ck_ref_UniquePtr_CObj(&x, k) { ad_ref_UniquePtr_CObj(&x) } else { 1 }); x }
fn r_mix_ref_UniquePtr_CObj(a: u8, x: &UniquePtr<CObj>, b: f64, k: i32, y: &UniquePtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_UniquePtr_CObj(&x, k) && b == -1.5 && ck_ref_UniquePtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_UniquePtr_CObj(&self, x: &UniquePtr<CObj>, k: i32) -> bool { ck_S3(self, 2) && ck_ref_UniquePtr_CObj(&x, k) } }
unsafe fn run_ref_UniquePtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_UniquePtr_CObj(k); let a = ad_ref_UniquePtr_CObj(&x); ensure!(ffi::c_take_ref_UniquePtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_UniquePtr_CObj(&Z, k); ensure!(ck_ref_UniquePtr_CObj(&x, k) && addr() == ad_ref_UniquePtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_UniquePtr_CObj(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_UniquePtr_CObj(&x, k) && addr() == ad_ref_UniquePtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_UniquePtr_CObj(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_UniquePtr_CObj(k); let a = ad_ref_UniquePtr_CObj(&x); let y = ffi::c_echo_ref_UniquePtr_CObj(x, k); ensure!(addr() == a && ad_ref_UniquePtr_CObj(&y) == a && ck_ref_UniquePtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_UniquePtr_CObj(200, mk_ref_UniquePtr_CObj(k), -1.5, k, mk_ref_UniquePtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_UniquePtr_CObj(k); ensure!(o.c_m_ref_UniquePtr_CObj(x, k), "method"); }
  7 => { fn f(x: &UniquePtr<CObj>, k: i32) -> &UniquePtr<CObj> { note(if ck_ref_UniquePtr_CObj(&x, k) { ad_ref_UniquePtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_UniquePtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_UniquePtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_SharedPtr_CObj(mut x: &SharedPtr<CObj>, k: i32) -> bool { let a = ad_ref_SharedPtr_CObj(&x); let ok = ck_ref_SharedPtr_CObj(&x, k);  note(a); ok }
fn r_make_ref_SharedPtr_CObj(z: &u8, k: i32) -> &SharedPtr<CObj> { let x = mk_ref_SharedPtr_CObj(k); note(ad_ref_SharedPtr_CObj(&x)); x }
fn r_try_ref_SharedPtr_CObj(z: &u8, k: i32, fail: bool) -> R<&SharedPtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_SharedPtr_CObj(k); note(ad_ref_SharedPtr_CObj(&x)); Ok(x) }
fn r_echo_ref_SharedPtr_CObj(x: &SharedPtr<CObj>, k: i32) -> &SharedPtr<CObj> { note(if ck_ref_SharedPtr_CObj(&x, k) { ad_ref_SharedPtr_CObj(&x) } else { 1 }); x }
fn r_mix_ref_SharedPtr_CObj(a: u8, x: &SharedPtr<CObj>, b: f64, k: i32, y: &SharedPtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_SharedPtr_CObj(&x, k) && b == -1.5 && ck_ref_SharedPtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_SharedPtr_CObj(&mut self, x: &SharedPtr<CObj>, k: i32) -> bool { ck_S3(self, 2) && ck_ref_SharedPtr_CObj(&x, k) } }
unsafe fn run_ref_SharedPtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_SharedPtr_CObj(k); let a = ad_ref_SharedPtr_CObj(&x); ensure!(ffi::c_take_ref_SharedPtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_SharedPtr_CObj(&Z, k); ensure!(ck_ref_SharedPtr_CObj(&x, k) && addr() == ad_ref_SharedPtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_SharedPtr_CObj(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_SharedPtr_CObj(&x, k) && addr() == ad_ref_SharedPtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_SharedPtr_CObj(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_SharedPtr_CObj(k); let a = ad_ref_SharedPtr_CObj(&x); let y = ffi::c_echo_ref_SharedPtr_CObj(x, k); ensure!(addr() == a && ad_ref_SharedPtr_CObj(&y) == a && ck_ref_SharedPtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_SharedPtr_CObj(200, mk_ref_SharedPtr_CObj(k), -1.5, k, mk_ref_SharedPtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ref_SharedPtr_CObj(k); ensure!(o.c_m_ref_SharedPtr_CObj(x, k), "method"); }
  7 => { fn f(x: &SharedPtr<CObj>, k: i32) -> &SharedPtr<CObj> { note(if ck_ref_SharedPtr_CObj(&x, k) { ad_ref_SharedPtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_SharedPtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_SharedPtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_WeakPtr_CObj(mut x: &WeakPtr<CObj>, k: i32) -> bool { let a = ad_ref_WeakPtr_CObj(&x); let ok = ck_ref_WeakPtr_CObj(&x, k);  note(a); ok }
fn r_make_ref_WeakPtr_CObj(z: &u8, k: i32) -> &WeakPtr<CObj> { let x = mk_ref_WeakPtr_CObj(k); note(ad_ref_WeakPtr_CObj(&x)); x }
fn r_try_ref_WeakPtr_CObj(z: &u8, k: i32, fail: bool) -> R<&WeakPtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_WeakPtr_CObj(k); note(ad_ref_WeakPtr_CObj(&x)); Ok(x) }
fn r_echo_ref_WeakPtr_CObj(x: &WeakPtr<CObj>, k: i32) -> &WeakPtr<CObj> { note(if ck_ref_WeakPtr_CObj(&x, k) { ad_ref_WeakPtr_CObj(&x) } else { 1 }); x }
fn r_mix_ref_WeakPtr_CObj(a: u8, x: &WeakPtr<CObj>, b: f64, k: i32, y: &WeakPtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_WeakPtr_CObj(&x, k) && b == -1.5 && ck_ref_WeakPtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_WeakPtr_CObj(&self, x: &WeakPtr<CObj>, k: i32) -> bool { ck_RObj(self, 2) && ck_ref_WeakPtr_CObj(&x, k) } }
unsafe fn run_ref_WeakPtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_WeakPtr_CObj(k); let a = ad_ref_WeakPtr_CObj(&x); ensure!(ffi::c_take_ref_WeakPtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_WeakPtr_CObj(&Z, k); ensure!(ck_ref_WeakPtr_CObj(&x, k) && addr() == ad_ref_WeakPtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_WeakPtr_CObj(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_WeakPtr_CObj(&x, k) && addr() == ad_ref_WeakPtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_WeakPtr_CObj(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_WeakPtr_CObj(k); let a = ad_ref_WeakPtr_CObj(&x); let y = ffi::c_echo_ref_WeakPtr_CObj(x, k); ensure!(addr() == a && ad_ref_WeakPtr_CObj(&y) == a && ck_ref_WeakPtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_WeakPtr_CObj(200, mk_ref_WeakPtr_CObj(k), -1.5, k, mk_ref_WeakPtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ref_WeakPtr_CObj(k); ensure!(o.c_m_ref_WeakPtr_CObj(x, k), "method"); }
  7 => { fn f(x: &WeakPtr<CObj>, k: i32) -> &WeakPtr<CObj> { note(if ck_ref_WeakPtr_CObj(&x, k) { ad_ref_WeakPtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_WeakPtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_WeakPtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_Eu8(mut x: &Eu8, k: i32) -> bool { let a = ad_ref_Eu8(&x); let ok = ck_ref_Eu8(&x, k);  note(a); ok }
fn r_make_ref_Eu8(z: &u8, k: i32) -> &Eu8 { let x = mk_ref_Eu8(k); note(ad_ref_Eu8(&x)); x }
fn r_try_ref_Eu8(z: &u8, k: i32, fail: bool) -> R<&Eu8> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_Eu8(k); note(ad_ref_Eu8(&x)); Ok(x) }
fn r_echo_ref_Eu8(x: &Eu8, k: i32) -> &Eu8 { note(if ck_ref_Eu8(&x, k) { ad_ref_Eu8(&x) } else { 1 }); x }
fn r_mix_ref_Eu8(a: u8, x: &Eu8, b: f64, k: i32, y: &Eu8, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_Eu8(&x, k) && b == -1.5 && ck_ref_Eu8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_Eu8(&mut self, x: &Eu8, k: i32) -> bool { ck_RObj(self, 2) && ck_ref_Eu8(&x, k) } }
unsafe fn run_ref_Eu8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_Eu8(k); let a = ad_ref_Eu8(&x); ensure!(ffi::c_take_ref_Eu8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_Eu8(&Z, k); ensure!(ck_ref_Eu8(&x, k) && addr() == ad_ref_Eu8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_Eu8(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_Eu8(&x, k) && addr() == ad_ref_Eu8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_Eu8(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_Eu8(k); let a = ad_ref_Eu8(&x); let y = ffi::c_echo_ref_Eu8(x, k); ensure!(addr() == a && ad_ref_Eu8(&y) == a && ck_ref_Eu8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_Eu8(200, mk_ref_Eu8(k), -1.5, k, mk_ref_Eu8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_Eu8(k); ensure!(o.c_m_ref_Eu8(x, k), "method"); }
  7 => { fn f(x: &Eu8, k: i32) -> &Eu8 { note(if ck_ref_Eu8(&x, k) { ad_ref_Eu8(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_Eu8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_Eu8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_ref_TrivA(mut x: &TrivA, k: i32) -> bool { let a = ad_ref_TrivA(&x); let ok = ck_ref_TrivA(&x, k);  note(a); ok }
fn r_make_ref_TrivA(z: &u8, k: i32) -> &TrivA { let x = mk_ref_TrivA(k); note(ad_ref_TrivA(&x)); x }
fn r_try_ref_TrivA(z: &u8, k: i32, fail: bool) -> R<&TrivA> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_TrivA(k); note(ad_ref_TrivA(&x)); Ok(x) }
fn r_echo_ref_TrivA(x: &TrivA, k: i32) -> &TrivA { note(if ck_ref_TrivA(&x, k) { ad_ref_TrivA(&x) } else { 1 }); x }
fn r_mix_ref_TrivA(a: u8, x: &TrivA, b: f64, k: i32, y: &TrivA, c: u16) -> R<bool> { Ok(a == 200 && ck_ref_TrivA(&x, k) && b == -1.5 && ck_ref_TrivA(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_ref_TrivA(&self, x: &TrivA, k: i32) -> bool { ck_S3(self, 2) && ck_ref_TrivA(&x, k) } }
unsafe fn run_ref_TrivA(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_TrivA(k); let a = ad_ref_TrivA(&x); ensure!(ffi::c_take_ref_TrivA(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_TrivA(&Z, k); ensure!(ck_ref_TrivA(&x, k) && addr() == ad_ref_TrivA(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_TrivA(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_TrivA(&x, k) && addr() == ad_ref_TrivA(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_TrivA(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_TrivA(k); let a = ad_ref_TrivA(&x); let y = ffi::c_echo_ref_TrivA(x, k); ensure!(addr() == a && ad_ref_TrivA(&y) == a && ck_ref_TrivA(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_TrivA(200, mk_ref_TrivA(k), -1.5, k, mk_ref_TrivA((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_TrivA(k); ensure!(o.c_m_ref_TrivA(x, k), "method"); }
  7 => { fn f(x: &TrivA, k: i32) -> &TrivA { note(if ck_ref_TrivA(&x, k) { ad_ref_TrivA(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_TrivA(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_TrivA(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
pub fn systems() -> Vec<System> { let mut v = vec![];
let ops: Vec<String> = (0..60).map(|i| format!("{}({})", ["c_take", "c_make", "c_try", "c_try_fail", "c_echo", "c_mix", "c_method", "c_callback", "r_take", "r_make", "r_try", "r_try_fail", "r_echo", "r_mix", "r_method"][i / 4], i % 4)).collect();
let mut add = |n: &str, f: unsafe fn(usize, i32) -> R<()>| { v.push(rust_system(&format!("sig-{}-{}", "c09b", n), ops.clone(), move |t, key| { for x in t { unsafe { f(*x as usize / 4, *x as i32 % 4)? } } key.push(t.last().map_or(255, |x| *x as u8)); Ok(true) })); };
add("Box_RObj", run_Box_RObj);
add("Box_S2", run_Box_S2);
add("Box_S7", run_Box_S7);
add("Box_TrivA", run_Box_TrivA);
add("Vec_u8", run_Vec_u8);
add("Vec_i64", run_Vec_i64);
add("Vec_bool", run_Vec_bool);
add("Vec_f32", run_Vec_f32);
add("Vec_usize", run_Vec_usize);
add("Vec_c_char", run_Vec_c_char);
add("Vec_String", run_Vec_String);
add("Vec_S2", run_Vec_S2);
add("Vec_S7", run_Vec_S7);
add("Vec_RObj", run_Vec_RObj);
add("Vec_Ei8", run_Vec_Ei8);
add("Vec_TrivA", run_Vec_TrivA);
add("UniquePtr_CObj", run_UniquePtr_CObj);
add("UniquePtr_CxxString", run_UniquePtr_CxxString);
add("UniquePtr_S2", run_UniquePtr_S2);
add("UniquePtr_S7", run_UniquePtr_S7);
add("UniquePtr_TrivA", run_UniquePtr_TrivA);
add("UniquePtr_CxxVector_u16", run_UniquePtr_CxxVector_u16);
add("UniquePtr_CxxVector_CxxString", run_UniquePtr_CxxVector_CxxString);
add("UniquePtr_CxxVector_CObj", run_UniquePtr_CxxVector_CObj);
add("UniquePtr_CxxVector_S7", run_UniquePtr_CxxVector_S7);
add("UniquePtr_CxxVector_f64", run_UniquePtr_CxxVector_f64);
add("SharedPtr_CObj", run_SharedPtr_CObj);
add("SharedPtr_CxxString", run_SharedPtr_CxxString);
add("SharedPtr_u32", run_SharedPtr_u32);
add("SharedPtr_bool", run_SharedPtr_bool);
add("SharedPtr_f64", run_SharedPtr_f64);
add("SharedPtr_S7", run_SharedPtr_S7);
add("SharedPtr_TrivA", run_SharedPtr_TrivA);
add("WeakPtr_CObj", run_WeakPtr_CObj);
add("WeakPtr_CxxString", run_WeakPtr_CxxString);
add("WeakPtr_i64", run_WeakPtr_i64);
add("WeakPtr_S2", run_WeakPtr_S2);
add("ref_u8", run_ref_u8);
add("ref_u64", run_ref_u64);
add("ref_f64", run_ref_f64);
add("ref_bool", run_ref_bool);
add("ref_String", run_ref_String);
add("ref_S2", run_ref_S2);
add("ref_S7", run_ref_S7);
add("ref_RObj", run_ref_RObj);
add("ref_CObj", run_ref_CObj);
add("ref_CxxString", run_ref_CxxString);
add("ref_CxxVector_u8", run_ref_CxxVector_u8);
add("ref_CxxVector_CxxString", run_ref_CxxVector_CxxString);
add("ref_Vec_u8", run_ref_Vec_u8);
add("ref_Vec_String", run_ref_Vec_String);
add("ref_Vec_RObj", run_ref_Vec_RObj);
add("ref_Box_RObj", run_ref_Box_RObj);
add("ref_UniquePtr_CObj", run_ref_UniquePtr_CObj);
add("ref_SharedPtr_CObj", run_ref_SharedPtr_CObj);
add("ref_WeakPtr_CObj", run_ref_WeakPtr_CObj);
add("ref_Eu8", run_ref_Eu8);
add("ref_TrivA", run_ref_TrivA);
v }
