// Generated by gen_sig.py.
#![allow(clippy::all, unused_braces, static_mut_refs)]
use crate::engine::{rust_system, System};
use crate::ensure;
use core::ffi::c_char;
use core::pin::Pin;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use self::ffi::*;
static TXT: [&str; 4] = ["", "a", "h\u{e9}\0x", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\u{1F600}"];
#[unsafe(no_mangle)]
pub static mut vk_addr_c09c: usize = 0;
fn addr() -> usize { unsafe { vk_addr_c09c } }
fn note(a: usize) { unsafe { vk_addr_c09c = a } }
pub struct RObj { tag: i32, pad: String }
impl RObj {
    fn new(k: i32) -> Self { RObj { tag: k, pad: TXT[k as usize].to_owned() } }
    fn r_tag(&self) -> i32 { self.tag }
    fn r_set(&mut self, k: i32) { *self = RObj::new(k) }
}
fn r_new(k: i32) -> Box<RObj> { Box::new(RObj::new(k)) }
type R<T> = Result<T, String>;
#[cxx::bridge(namespace = "c09c")]
mod ffi {
    struct S3 { f0: f32, f1: f32 }
    struct S2 { f0: u8, f1: u8 }
    struct S7 { f0: String }
    #[repr(i32)] #[derive(Debug)] enum Ei32 { V0 = -1, V1 = 0, V2 = 2147483647, V3 = -2147483648 }
    extern "C++" { type TrivB = crate::c09c::TrivB; }
    #[repr(i8)] #[derive(Debug)] enum Ei8 { V0 = 0, V1 = 1, V2 = -128, V3 = 127 }
    extern "C++" { type TrivA = crate::c09c::TrivA; }
    #[repr(u16)] #[derive(Debug)] enum Eu16 { V0 = 0, V1 = 1, V2 = 32768, V3 = 65535 }
    extern "C++" { type TrivC = crate::c09c::TrivC; }
    unsafe extern "C++" {
        include!("rt/cc/c09c.hpp");
        type CObj;
        fn c_tag(self: &CObj) -> i32;
        fn c_set(self: Pin<&mut CObj>, k: i32);
        fn c_store_CObj(k: i32) -> UniquePtr<CObj>;
        fn c_store_CxxString(k: i32) -> UniquePtr<CxxString>;
        fn c_store_CxxVector_u8(k: i32) -> UniquePtr<CxxVector<u8>>;
        fn c_store_CxxVector_S2(k: i32) -> UniquePtr<CxxVector<S2>>;
        fn c_take_ref_arr4_u8(x: &[u8; 4], k: i32) -> bool;
        fn c_make_ref_arr4_u8(z: &u8, k: i32) -> &[u8; 4];
        fn c_try_ref_arr4_u8(z: &u8, k: i32, fail: bool) -> Result<&[u8; 4]>;
        fn c_echo_ref_arr4_u8(x: &[u8; 4], k: i32) -> &[u8; 4];
        fn c_mix_ref_arr4_u8(a: u8, x: &[u8; 4], b: f64, k: i32, y: &[u8; 4], c: u16) -> Result<bool>;
        fn c_m_ref_arr4_u8(self: &CObj, x: &[u8; 4], k: i32) -> bool;
        fn c_cb_ref_arr4_u8(f: fn(&[u8; 4], i32) -> &[u8; 4], k: i32) -> bool;
        fn c_run_ref_arr4_u8(pos: i32, k: i32) -> i32;
        fn c_take_mut_u8(x: &mut u8, k: i32) -> bool;
        fn c_make_mut_u8(z: &mut u8, k: i32) -> &mut u8;
        fn c_try_mut_u8(z: &mut u8, k: i32, fail: bool) -> Result<&mut u8>;
        fn c_echo_mut_u8(x: &mut u8, k: i32) -> &mut u8;
        fn c_mix_mut_u8(a: u8, x: &mut u8, b: f64, k: i32, y: &mut u8, c: u16) -> Result<bool>;
        fn c_m_mut_u8(self: Pin<&mut CObj>, x: &mut u8, k: i32) -> bool;
        fn c_cb_mut_u8(f: fn(&mut u8, i32) -> &mut u8, k: i32) -> bool;
        fn c_run_mut_u8(pos: i32, k: i32) -> i32;
        fn c_take_mut_i64(x: &mut i64, k: i32) -> bool;
        fn c_make_mut_i64(z: &mut u8, k: i32) -> &mut i64;
        fn c_try_mut_i64(z: &mut u8, k: i32, fail: bool) -> Result<&mut i64>;
        fn c_echo_mut_i64(x: &mut i64, k: i32) -> &mut i64;
        fn c_mix_mut_i64(a: u8, x: &mut i64, b: f64, k: i32, y: &mut i64, c: u16) -> Result<bool>;
        fn c_m_mut_i64(self: &S3, x: &mut i64, k: i32) -> bool;
        fn c_cb_mut_i64(f: fn(&mut i64, i32) -> &mut i64, k: i32) -> bool;
        fn c_run_mut_i64(pos: i32, k: i32) -> i32;
        fn c_take_mut_f32(x: &mut f32, k: i32) -> bool;
        fn c_make_mut_f32(z: &mut u8, k: i32) -> &mut f32;
        fn c_try_mut_f32(z: &mut u8, k: i32, fail: bool) -> Result<&mut f32>;
        fn c_echo_mut_f32(x: &mut f32, k: i32) -> &mut f32;
        fn c_mix_mut_f32(a: u8, x: &mut f32, b: f64, k: i32, y: &mut f32, c: u16) -> Result<bool>;
        fn c_m_mut_f32(self: &mut S3, x: &mut f32, k: i32) -> bool;
        fn c_cb_mut_f32(f: fn(&mut f32, i32) -> &mut f32, k: i32) -> bool;
        fn c_run_mut_f32(pos: i32, k: i32) -> i32;
        fn c_take_mut_bool(x: &mut bool, k: i32) -> bool;
        fn c_make_mut_bool(z: &mut u8, k: i32) -> &mut bool;
        fn c_try_mut_bool(z: &mut u8, k: i32, fail: bool) -> Result<&mut bool>;
        fn c_echo_mut_bool(x: &mut bool, k: i32) -> &mut bool;
        fn c_mix_mut_bool(a: u8, x: &mut bool, b: f64, k: i32, y: &mut bool, c: u16) -> Result<bool>;
        fn c_m_mut_bool(self: &CObj, x: &mut bool, k: i32) -> bool;
        fn c_cb_mut_bool(f: fn(&mut bool, i32) -> &mut bool, k: i32) -> bool;
        fn c_run_mut_bool(pos: i32, k: i32) -> i32;
        fn c_take_mut_String(x: &mut String, k: i32) -> bool;
        fn c_make_mut_String(z: &mut u8, k: i32) -> &mut String;
        fn c_try_mut_String(z: &mut u8, k: i32, fail: bool) -> Result<&mut String>;
        fn c_echo_mut_String(x: &mut String, k: i32) -> &mut String;
        fn c_mix_mut_String(a: u8, x: &mut String, b: f64, k: i32, y: &mut String, c: u16) -> Result<bool>;
        fn c_m_mut_String(self: Pin<&mut CObj>, x: &mut String, k: i32) -> bool;
        fn c_cb_mut_String(f: fn(&mut String, i32) -> &mut String, k: i32) -> bool;
        fn c_run_mut_String(pos: i32, k: i32) -> i32;
        fn c_take_mut_S2(x: &mut S2, k: i32) -> bool;
        fn c_make_mut_S2(z: &mut u8, k: i32) -> &mut S2;
        fn c_try_mut_S2(z: &mut u8, k: i32, fail: bool) -> Result<&mut S2>;
        fn c_echo_mut_S2(x: &mut S2, k: i32) -> &mut S2;
        fn c_mix_mut_S2(a: u8, x: &mut S2, b: f64, k: i32, y: &mut S2, c: u16) -> Result<bool>;
        fn c_m_mut_S2(self: &S3, x: &mut S2, k: i32) -> bool;
        fn c_cb_mut_S2(f: fn(&mut S2, i32) -> &mut S2, k: i32) -> bool;
        fn c_run_mut_S2(pos: i32, k: i32) -> i32;
        fn c_take_mut_S7(x: &mut S7, k: i32) -> bool;
        fn c_make_mut_S7(z: &mut u8, k: i32) -> &mut S7;
        fn c_try_mut_S7(z: &mut u8, k: i32, fail: bool) -> Result<&mut S7>;
        fn c_echo_mut_S7(x: &mut S7, k: i32) -> &mut S7;
        fn c_mix_mut_S7(a: u8, x: &mut S7, b: f64, k: i32, y: &mut S7, c: u16) -> Result<bool>;
        fn c_m_mut_S7(self: &mut S3, x: &mut S7, k: i32) -> bool;
        fn c_cb_mut_S7(f: fn(&mut S7, i32) -> &mut S7, k: i32) -> bool;
        fn c_run_mut_S7(pos: i32, k: i32) -> i32;
        fn c_take_mut_RObj(x: &mut RObj, k: i32) -> bool;
        fn c_make_mut_RObj(z: &mut u8, k: i32) -> &mut RObj;
        fn c_try_mut_RObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut RObj>;
        fn c_echo_mut_RObj(x: &mut RObj, k: i32) -> &mut RObj;
        fn c_mix_mut_RObj(a: u8, x: &mut RObj, b: f64, k: i32, y: &mut RObj, c: u16) -> Result<bool>;
        fn c_m_mut_RObj(self: &CObj, x: &mut RObj, k: i32) -> bool;
        fn c_cb_mut_RObj(f: fn(&mut RObj, i32) -> &mut RObj, k: i32) -> bool;
        fn c_run_mut_RObj(pos: i32, k: i32) -> i32;
        fn c_take_mut_CObj(x: Pin<&mut CObj>, k: i32) -> bool;
        fn c_make_mut_CObj(z: &mut u8, k: i32) -> Pin<&mut CObj>;
        fn c_try_mut_CObj(z: &mut u8, k: i32, fail: bool) -> Result<Pin<&mut CObj>>;
        fn c_echo_mut_CObj(x: Pin<&mut CObj>, k: i32) -> Pin<&mut CObj>;
        fn c_mix_mut_CObj(a: u8, x: Pin<&mut CObj>, b: f64, k: i32, y: Pin<&mut CObj>, c: u16) -> Result<bool>;
        fn c_m_mut_CObj(self: Pin<&mut CObj>, x: Pin<&mut CObj>, k: i32) -> bool;
        fn c_cb_mut_CObj(f: fn(Pin<&mut CObj>, i32) -> Pin<&mut CObj>, k: i32) -> bool;
        fn c_run_mut_CObj(pos: i32, k: i32) -> i32;
        fn c_take_mut_CxxString(x: Pin<&mut CxxString>, k: i32) -> bool;
        fn c_make_mut_CxxString(z: &mut u8, k: i32) -> Pin<&mut CxxString>;
        fn c_try_mut_CxxString(z: &mut u8, k: i32, fail: bool) -> Result<Pin<&mut CxxString>>;
        fn c_echo_mut_CxxString(x: Pin<&mut CxxString>, k: i32) -> Pin<&mut CxxString>;
        fn c_mix_mut_CxxString(a: u8, x: Pin<&mut CxxString>, b: f64, k: i32, y: Pin<&mut CxxString>, c: u16) -> Result<bool>;
        fn c_m_mut_CxxString(self: &S3, x: Pin<&mut CxxString>, k: i32) -> bool;
        fn c_cb_mut_CxxString(f: fn(Pin<&mut CxxString>, i32) -> Pin<&mut CxxString>, k: i32) -> bool;
        fn c_run_mut_CxxString(pos: i32, k: i32) -> i32;
        fn c_take_mut_CxxVector_u8(x: Pin<&mut CxxVector<u8>>, k: i32) -> bool;
        fn c_make_mut_CxxVector_u8(z: &mut u8, k: i32) -> Pin<&mut CxxVector<u8>>;
        fn c_try_mut_CxxVector_u8(z: &mut u8, k: i32, fail: bool) -> Result<Pin<&mut CxxVector<u8>>>;
        fn c_echo_mut_CxxVector_u8(x: Pin<&mut CxxVector<u8>>, k: i32) -> Pin<&mut CxxVector<u8>>;
        fn c_mix_mut_CxxVector_u8(a: u8, x: Pin<&mut CxxVector<u8>>, b: f64, k: i32, y: Pin<&mut CxxVector<u8>>, c: u16) -> Result<bool>;
        fn c_m_mut_CxxVector_u8(self: &mut S3, x: Pin<&mut CxxVector<u8>>, k: i32) -> bool;
        fn c_cb_mut_CxxVector_u8(f: fn(Pin<&mut CxxVector<u8>>, i32) -> Pin<&mut CxxVector<u8>>, k: i32) -> bool;
        fn c_run_mut_CxxVector_u8(pos: i32, k: i32) -> i32;
        fn c_take_mut_CxxVector_S2(x: Pin<&mut CxxVector<S2>>, k: i32) -> bool;
        fn c_make_mut_CxxVector_S2(z: &mut u8, k: i32) -> Pin<&mut CxxVector<S2>>;
        fn c_try_mut_CxxVector_S2(z: &mut u8, k: i32, fail: bool) -> Result<Pin<&mut CxxVector<S2>>>;
        fn c_echo_mut_CxxVector_S2(x: Pin<&mut CxxVector<S2>>, k: i32) -> Pin<&mut CxxVector<S2>>;
        fn c_mix_mut_CxxVector_S2(a: u8, x: Pin<&mut CxxVector<S2>>, b: f64, k: i32, y: Pin<&mut CxxVector<S2>>, c: u16) -> Result<bool>;
        fn c_m_mut_CxxVector_S2(self: &CObj, x: Pin<&mut CxxVector<S2>>, k: i32) -> bool;
        fn c_cb_mut_CxxVector_S2(f: fn(Pin<&mut CxxVector<S2>>, i32) -> Pin<&mut CxxVector<S2>>, k: i32) -> bool;
        fn c_run_mut_CxxVector_S2(pos: i32, k: i32) -> i32;
        fn c_take_mut_Vec_u8(x: &mut Vec<u8>, k: i32) -> bool;
        fn c_make_mut_Vec_u8(z: &mut u8, k: i32) -> &mut Vec<u8>;
        fn c_try_mut_Vec_u8(z: &mut u8, k: i32, fail: bool) -> Result<&mut Vec<u8>>;
        fn c_echo_mut_Vec_u8(x: &mut Vec<u8>, k: i32) -> &mut Vec<u8>;
        fn c_mix_mut_Vec_u8(a: u8, x: &mut Vec<u8>, b: f64, k: i32, y: &mut Vec<u8>, c: u16) -> Result<bool>;
        fn c_m_mut_Vec_u8(self: Pin<&mut CObj>, x: &mut Vec<u8>, k: i32) -> bool;
        fn c_cb_mut_Vec_u8(f: fn(&mut Vec<u8>, i32) -> &mut Vec<u8>, k: i32) -> bool;
        fn c_run_mut_Vec_u8(pos: i32, k: i32) -> i32;
        fn c_take_mut_Vec_String(x: &mut Vec<String>, k: i32) -> bool;
        fn c_make_mut_Vec_String(z: &mut u8, k: i32) -> &mut Vec<String>;
        fn c_try_mut_Vec_String(z: &mut u8, k: i32, fail: bool) -> Result<&mut Vec<String>>;
        fn c_echo_mut_Vec_String(x: &mut Vec<String>, k: i32) -> &mut Vec<String>;
        fn c_mix_mut_Vec_String(a: u8, x: &mut Vec<String>, b: f64, k: i32, y: &mut Vec<String>, c: u16) -> Result<bool>;
        fn c_m_mut_Vec_String(self: &S3, x: &mut Vec<String>, k: i32) -> bool;
        fn c_cb_mut_Vec_String(f: fn(&mut Vec<String>, i32) -> &mut Vec<String>, k: i32) -> bool;
        fn c_run_mut_Vec_String(pos: i32, k: i32) -> i32;
        fn c_take_mut_Box_RObj(x: &mut Box<RObj>, k: i32) -> bool;
        fn c_make_mut_Box_RObj(z: &mut u8, k: i32) -> &mut Box<RObj>;
        fn c_try_mut_Box_RObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut Box<RObj>>;
        fn c_echo_mut_Box_RObj(x: &mut Box<RObj>, k: i32) -> &mut Box<RObj>;
        fn c_mix_mut_Box_RObj(a: u8, x: &mut Box<RObj>, b: f64, k: i32, y: &mut Box<RObj>, c: u16) -> Result<bool>;
        fn c_m_mut_Box_RObj(self: &mut S3, x: &mut Box<RObj>, k: i32) -> bool;
        fn c_cb_mut_Box_RObj(f: fn(&mut Box<RObj>, i32) -> &mut Box<RObj>, k: i32) -> bool;
        fn c_run_mut_Box_RObj(pos: i32, k: i32) -> i32;
        fn c_take_mut_UniquePtr_CObj(x: &mut UniquePtr<CObj>, k: i32) -> bool;
        fn c_make_mut_UniquePtr_CObj(z: &mut u8, k: i32) -> &mut UniquePtr<CObj>;
        fn c_try_mut_UniquePtr_CObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut UniquePtr<CObj>>;
        fn c_echo_mut_UniquePtr_CObj(x: &mut UniquePtr<CObj>, k: i32) -> &mut UniquePtr<CObj>;
        fn c_mix_mut_UniquePtr_CObj(a: u8, x: &mut UniquePtr<CObj>, b: f64, k: i32, y: &mut UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_mut_UniquePtr_CObj(self: &CObj, x: &mut UniquePtr<CObj>, k: i32) -> bool;
        fn c_cb_mut_UniquePtr_CObj(f: fn(&mut UniquePtr<CObj>, i32) -> &mut UniquePtr<CObj>, k: i32) -> bool;
        fn c_run_mut_UniquePtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_mut_SharedPtr_CObj(x: &mut SharedPtr<CObj>, k: i32) -> bool;
        fn c_make_mut_SharedPtr_CObj(z: &mut u8, k: i32) -> &mut SharedPtr<CObj>;
        fn c_try_mut_SharedPtr_CObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut SharedPtr<CObj>>;
        fn c_echo_mut_SharedPtr_CObj(x: &mut SharedPtr<CObj>, k: i32) -> &mut SharedPtr<CObj>;
        fn c_mix_mut_SharedPtr_CObj(a: u8, x: &mut SharedPtr<CObj>, b: f64, k: i32, y: &mut SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_mut_SharedPtr_CObj(self: Pin<&mut CObj>, x: &mut SharedPtr<CObj>, k: i32) -> bool;
        fn c_cb_mut_SharedPtr_CObj(f: fn(&mut SharedPtr<CObj>, i32) -> &mut SharedPtr<CObj>, k: i32) -> bool;
        fn c_run_mut_SharedPtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_mut_Ei32(x: &mut Ei32, k: i32) -> bool;
        fn c_make_mut_Ei32(z: &mut u8, k: i32) -> &mut Ei32;
        fn c_try_mut_Ei32(z: &mut u8, k: i32, fail: bool) -> Result<&mut Ei32>;
        fn c_echo_mut_Ei32(x: &mut Ei32, k: i32) -> &mut Ei32;
        fn c_mix_mut_Ei32(a: u8, x: &mut Ei32, b: f64, k: i32, y: &mut Ei32, c: u16) -> Result<bool>;
        fn c_m_mut_Ei32(self: &S3, x: &mut Ei32, k: i32) -> bool;
        fn c_cb_mut_Ei32(f: fn(&mut Ei32, i32) -> &mut Ei32, k: i32) -> bool;
        fn c_run_mut_Ei32(pos: i32, k: i32) -> i32;
        fn c_take_mut_TrivB(x: &mut TrivB, k: i32) -> bool;
        fn c_make_mut_TrivB(z: &mut u8, k: i32) -> &mut TrivB;
        fn c_try_mut_TrivB(z: &mut u8, k: i32, fail: bool) -> Result<&mut TrivB>;
        fn c_echo_mut_TrivB(x: &mut TrivB, k: i32) -> &mut TrivB;
        fn c_mix_mut_TrivB(a: u8, x: &mut TrivB, b: f64, k: i32, y: &mut TrivB, c: u16) -> Result<bool>;
        fn c_m_mut_TrivB(self: &mut S3, x: &mut TrivB, k: i32) -> bool;
        fn c_cb_mut_TrivB(f: fn(&mut TrivB, i32) -> &mut TrivB, k: i32) -> bool;
        fn c_run_mut_TrivB(pos: i32, k: i32) -> i32;
        fn c_take_mut_arr3_S2(x: &mut [S2; 3], k: i32) -> bool;
        fn c_make_mut_arr3_S2(z: &mut u8, k: i32) -> &mut [S2; 3];
        fn c_try_mut_arr3_S2(z: &mut u8, k: i32, fail: bool) -> Result<&mut [S2; 3]>;
        fn c_echo_mut_arr3_S2(x: &mut [S2; 3], k: i32) -> &mut [S2; 3];
        fn c_mix_mut_arr3_S2(a: u8, x: &mut [S2; 3], b: f64, k: i32, y: &mut [S2; 3], c: u16) -> Result<bool>;
        fn c_m_mut_arr3_S2(self: &CObj, x: &mut [S2; 3], k: i32) -> bool;
        fn c_cb_mut_arr3_S2(f: fn(&mut [S2; 3], i32) -> &mut [S2; 3], k: i32) -> bool;
        fn c_run_mut_arr3_S2(pos: i32, k: i32) -> i32;
        fn c_take_sl_u8(x: &[u8], k: i32) -> bool;
        fn c_make_sl_u8(z: &u8, k: i32) -> &[u8];
        fn c_try_sl_u8(z: &u8, k: i32, fail: bool) -> Result<&[u8]>;
        fn c_echo_sl_u8(x: &[u8], k: i32) -> &[u8];
        fn c_mix_sl_u8(a: u8, x: &[u8], b: f64, k: i32, y: &[u8], c: u16) -> Result<bool>;
        fn c_m_sl_u8(self: Pin<&mut CObj>, x: &[u8], k: i32) -> bool;
        fn c_cb_sl_u8(f: fn(&[u8], i32) -> &[u8], k: i32) -> bool;
        fn c_run_sl_u8(pos: i32, k: i32) -> i32;
        fn c_take_sl_u16(x: &[u16], k: i32) -> bool;
        fn c_make_sl_u16(z: &u8, k: i32) -> &[u16];
        fn c_try_sl_u16(z: &u8, k: i32, fail: bool) -> Result<&[u16]>;
        fn c_echo_sl_u16(x: &[u16], k: i32) -> &[u16];
        fn c_mix_sl_u16(a: u8, x: &[u16], b: f64, k: i32, y: &[u16], c: u16) -> Result<bool>;
        fn c_m_sl_u16(self: &S3, x: &[u16], k: i32) -> bool;
        fn c_cb_sl_u16(f: fn(&[u16], i32) -> &[u16], k: i32) -> bool;
        fn c_run_sl_u16(pos: i32, k: i32) -> i32;
        fn c_take_sl_i32(x: &[i32], k: i32) -> bool;
        fn c_make_sl_i32(z: &u8, k: i32) -> &[i32];
        fn c_try_sl_i32(z: &u8, k: i32, fail: bool) -> Result<&[i32]>;
        fn c_echo_sl_i32(x: &[i32], k: i32) -> &[i32];
        fn c_mix_sl_i32(a: u8, x: &[i32], b: f64, k: i32, y: &[i32], c: u16) -> Result<bool>;
        fn c_m_sl_i32(self: &mut S3, x: &[i32], k: i32) -> bool;
        fn c_cb_sl_i32(f: fn(&[i32], i32) -> &[i32], k: i32) -> bool;
        fn c_run_sl_i32(pos: i32, k: i32) -> i32;
        fn c_take_sl_f64(x: &[f64], k: i32) -> bool;
        fn c_make_sl_f64(z: &u8, k: i32) -> &[f64];
        fn c_try_sl_f64(z: &u8, k: i32, fail: bool) -> Result<&[f64]>;
        fn c_echo_sl_f64(x: &[f64], k: i32) -> &[f64];
        fn c_mix_sl_f64(a: u8, x: &[f64], b: f64, k: i32, y: &[f64], c: u16) -> Result<bool>;
        fn c_m_sl_f64(self: &CObj, x: &[f64], k: i32) -> bool;
        fn c_cb_sl_f64(f: fn(&[f64], i32) -> &[f64], k: i32) -> bool;
        fn c_run_sl_f64(pos: i32, k: i32) -> i32;
        fn c_take_sl_bool(x: &[bool], k: i32) -> bool;
        fn c_make_sl_bool(z: &u8, k: i32) -> &[bool];
        fn c_try_sl_bool(z: &u8, k: i32, fail: bool) -> Result<&[bool]>;
        fn c_echo_sl_bool(x: &[bool], k: i32) -> &[bool];
        fn c_mix_sl_bool(a: u8, x: &[bool], b: f64, k: i32, y: &[bool], c: u16) -> Result<bool>;
        fn c_m_sl_bool(self: Pin<&mut CObj>, x: &[bool], k: i32) -> bool;
        fn c_cb_sl_bool(f: fn(&[bool], i32) -> &[bool], k: i32) -> bool;
        fn c_run_sl_bool(pos: i32, k: i32) -> i32;
        fn c_take_sl_usize(x: &[usize], k: i32) -> bool;
        fn c_make_sl_usize(z: &u8, k: i32) -> &[usize];
        fn c_try_sl_usize(z: &u8, k: i32, fail: bool) -> Result<&[usize]>;
        fn c_echo_sl_usize(x: &[usize], k: i32) -> &[usize];
        fn c_mix_sl_usize(a: u8, x: &[usize], b: f64, k: i32, y: &[usize], c: u16) -> Result<bool>;
        fn c_m_sl_usize(self: &S3, x: &[usize], k: i32) -> bool;
        fn c_cb_sl_usize(f: fn(&[usize], i32) -> &[usize], k: i32) -> bool;
        fn c_run_sl_usize(pos: i32, k: i32) -> i32;
        fn c_take_sl_c_char(x: &[c_char], k: i32) -> bool;
        fn c_make_sl_c_char(z: &u8, k: i32) -> &[c_char];
        fn c_try_sl_c_char(z: &u8, k: i32, fail: bool) -> Result<&[c_char]>;
        fn c_echo_sl_c_char(x: &[c_char], k: i32) -> &[c_char];
        fn c_mix_sl_c_char(a: u8, x: &[c_char], b: f64, k: i32, y: &[c_char], c: u16) -> Result<bool>;
        fn c_m_sl_c_char(self: &mut S3, x: &[c_char], k: i32) -> bool;
        fn c_cb_sl_c_char(f: fn(&[c_char], i32) -> &[c_char], k: i32) -> bool;
        fn c_run_sl_c_char(pos: i32, k: i32) -> i32;
        fn c_take_sl_String(x: &[String], k: i32) -> bool;
        fn c_make_sl_String(z: &u8, k: i32) -> &[String];
        fn c_try_sl_String(z: &u8, k: i32, fail: bool) -> Result<&[String]>;
        fn c_echo_sl_String(x: &[String], k: i32) -> &[String];
        fn c_mix_sl_String(a: u8, x: &[String], b: f64, k: i32, y: &[String], c: u16) -> Result<bool>;
        fn c_m_sl_String(self: &CObj, x: &[String], k: i32) -> bool;
        fn c_cb_sl_String(f: fn(&[String], i32) -> &[String], k: i32) -> bool;
        fn c_run_sl_String(pos: i32, k: i32) -> i32;
        fn c_take_sl_S2(x: &[S2], k: i32) -> bool;
        fn c_make_sl_S2(z: &u8, k: i32) -> &[S2];
        fn c_try_sl_S2(z: &u8, k: i32, fail: bool) -> Result<&[S2]>;
        fn c_echo_sl_S2(x: &[S2], k: i32) -> &[S2];
        fn c_mix_sl_S2(a: u8, x: &[S2], b: f64, k: i32, y: &[S2], c: u16) -> Result<bool>;
        fn c_m_sl_S2(self: Pin<&mut CObj>, x: &[S2], k: i32) -> bool;
        fn c_cb_sl_S2(f: fn(&[S2], i32) -> &[S2], k: i32) -> bool;
        fn c_run_sl_S2(pos: i32, k: i32) -> i32;
        fn c_take_sl_S7(x: &[S7], k: i32) -> bool;
        fn c_make_sl_S7(z: &u8, k: i32) -> &[S7];
        fn c_try_sl_S7(z: &u8, k: i32, fail: bool) -> Result<&[S7]>;
        fn c_echo_sl_S7(x: &[S7], k: i32) -> &[S7];
        fn c_mix_sl_S7(a: u8, x: &[S7], b: f64, k: i32, y: &[S7], c: u16) -> Result<bool>;
        fn c_m_sl_S7(self: &S3, x: &[S7], k: i32) -> bool;
        fn c_cb_sl_S7(f: fn(&[S7], i32) -> &[S7], k: i32) -> bool;
        fn c_run_sl_S7(pos: i32, k: i32) -> i32;
        fn c_take_sl_Ei8(x: &[Ei8], k: i32) -> bool;
        fn c_make_sl_Ei8(z: &u8, k: i32) -> &[Ei8];
        fn c_try_sl_Ei8(z: &u8, k: i32, fail: bool) -> Result<&[Ei8]>;
        fn c_echo_sl_Ei8(x: &[Ei8], k: i32) -> &[Ei8];
        fn c_mix_sl_Ei8(a: u8, x: &[Ei8], b: f64, k: i32, y: &[Ei8], c: u16) -> Result<bool>;
        fn c_m_sl_Ei8(self: &mut S3, x: &[Ei8], k: i32) -> bool;
        fn c_cb_sl_Ei8(f: fn(&[Ei8], i32) -> &[Ei8], k: i32) -> bool;
        fn c_run_sl_Ei8(pos: i32, k: i32) -> i32;
        fn c_take_sl_TrivA(x: &[TrivA], k: i32) -> bool;
        fn c_make_sl_TrivA(z: &u8, k: i32) -> &[TrivA];
        fn c_try_sl_TrivA(z: &u8, k: i32, fail: bool) -> Result<&[TrivA]>;
        fn c_echo_sl_TrivA(x: &[TrivA], k: i32) -> &[TrivA];
        fn c_mix_sl_TrivA(a: u8, x: &[TrivA], b: f64, k: i32, y: &[TrivA], c: u16) -> Result<bool>;
        fn c_m_sl_TrivA(self: &CObj, x: &[TrivA], k: i32) -> bool;
        fn c_cb_sl_TrivA(f: fn(&[TrivA], i32) -> &[TrivA], k: i32) -> bool;
        fn c_run_sl_TrivA(pos: i32, k: i32) -> i32;
        fn c_take_sl_RObj(x: &[RObj], k: i32) -> bool;
        fn c_make_sl_RObj(z: &u8, k: i32) -> &[RObj];
        fn c_try_sl_RObj(z: &u8, k: i32, fail: bool) -> Result<&[RObj]>;
        fn c_echo_sl_RObj(x: &[RObj], k: i32) -> &[RObj];
        fn c_mix_sl_RObj(a: u8, x: &[RObj], b: f64, k: i32, y: &[RObj], c: u16) -> Result<bool>;
        fn c_m_sl_RObj(self: Pin<&mut CObj>, x: &[RObj], k: i32) -> bool;
        fn c_cb_sl_RObj(f: fn(&[RObj], i32) -> &[RObj], k: i32) -> bool;
        fn c_run_sl_RObj(pos: i32, k: i32) -> i32;
        fn c_take_sl_Box_RObj(x: &[Box<RObj>], k: i32) -> bool;
        fn c_make_sl_Box_RObj(z: &u8, k: i32) -> &[Box<RObj>];
        fn c_try_sl_Box_RObj(z: &u8, k: i32, fail: bool) -> Result<&[Box<RObj>]>;
        fn c_echo_sl_Box_RObj(x: &[Box<RObj>], k: i32) -> &[Box<RObj>];
        fn c_mix_sl_Box_RObj(a: u8, x: &[Box<RObj>], b: f64, k: i32, y: &[Box<RObj>], c: u16) -> Result<bool>;
        fn c_m_sl_Box_RObj(self: &S3, x: &[Box<RObj>], k: i32) -> bool;
        fn c_cb_sl_Box_RObj(f: fn(&[Box<RObj>], i32) -> &[Box<RObj>], k: i32) -> bool;
        fn c_run_sl_Box_RObj(pos: i32, k: i32) -> i32;
        fn c_take_sl_UniquePtr_CObj(x: &[UniquePtr<CObj>], k: i32) -> bool;
        fn c_make_sl_UniquePtr_CObj(z: &u8, k: i32) -> &[UniquePtr<CObj>];
        fn c_try_sl_UniquePtr_CObj(z: &u8, k: i32, fail: bool) -> Result<&[UniquePtr<CObj>]>;
        fn c_echo_sl_UniquePtr_CObj(x: &[UniquePtr<CObj>], k: i32) -> &[UniquePtr<CObj>];
        fn c_mix_sl_UniquePtr_CObj(a: u8, x: &[UniquePtr<CObj>], b: f64, k: i32, y: &[UniquePtr<CObj>], c: u16) -> Result<bool>;
        fn c_m_sl_UniquePtr_CObj(self: &mut S3, x: &[UniquePtr<CObj>], k: i32) -> bool;
        fn c_cb_sl_UniquePtr_CObj(f: fn(&[UniquePtr<CObj>], i32) -> &[UniquePtr<CObj>], k: i32) -> bool;
        fn c_run_sl_UniquePtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_sl_Vec_u8(x: &[Vec<u8>], k: i32) -> bool;
        fn c_make_sl_Vec_u8(z: &u8, k: i32) -> &[Vec<u8>];
        fn c_try_sl_Vec_u8(z: &u8, k: i32, fail: bool) -> Result<&[Vec<u8>]>;
        fn c_echo_sl_Vec_u8(x: &[Vec<u8>], k: i32) -> &[Vec<u8>];
        fn c_mix_sl_Vec_u8(a: u8, x: &[Vec<u8>], b: f64, k: i32, y: &[Vec<u8>], c: u16) -> Result<bool>;
        fn c_m_sl_Vec_u8(self: &CObj, x: &[Vec<u8>], k: i32) -> bool;
        fn c_cb_sl_Vec_u8(f: fn(&[Vec<u8>], i32) -> &[Vec<u8>], k: i32) -> bool;
        fn c_run_sl_Vec_u8(pos: i32, k: i32) -> i32;
        fn c_take_sl_f32(x: &[f32], k: i32) -> bool;
        fn c_make_sl_f32(z: &u8, k: i32) -> &[f32];
        fn c_try_sl_f32(z: &u8, k: i32, fail: bool) -> Result<&[f32]>;
        fn c_echo_sl_f32(x: &[f32], k: i32) -> &[f32];
        fn c_mix_sl_f32(a: u8, x: &[f32], b: f64, k: i32, y: &[f32], c: u16) -> Result<bool>;
        fn c_m_sl_f32(self: Pin<&mut CObj>, x: &[f32], k: i32) -> bool;
        fn c_cb_sl_f32(f: fn(&[f32], i32) -> &[f32], k: i32) -> bool;
        fn c_run_sl_f32(pos: i32, k: i32) -> i32;
        fn c_take_sl_isize(x: &[isize], k: i32) -> bool;
        fn c_make_sl_isize(z: &u8, k: i32) -> &[isize];
        fn c_try_sl_isize(z: &u8, k: i32, fail: bool) -> Result<&[isize]>;
        fn c_echo_sl_isize(x: &[isize], k: i32) -> &[isize];
        fn c_mix_sl_isize(a: u8, x: &[isize], b: f64, k: i32, y: &[isize], c: u16) -> Result<bool>;
        fn c_m_sl_isize(self: &S3, x: &[isize], k: i32) -> bool;
        fn c_cb_sl_isize(f: fn(&[isize], i32) -> &[isize], k: i32) -> bool;
        fn c_run_sl_isize(pos: i32, k: i32) -> i32;
        fn c_take_sl_arr4_u8(x: &[[u8; 4]], k: i32) -> bool;
        fn c_make_sl_arr4_u8(z: &u8, k: i32) -> &[[u8; 4]];
        fn c_try_sl_arr4_u8(z: &u8, k: i32, fail: bool) -> Result<&[[u8; 4]]>;
        fn c_echo_sl_arr4_u8(x: &[[u8; 4]], k: i32) -> &[[u8; 4]];
        fn c_mix_sl_arr4_u8(a: u8, x: &[[u8; 4]], b: f64, k: i32, y: &[[u8; 4]], c: u16) -> Result<bool>;
        fn c_m_sl_arr4_u8(self: &mut S3, x: &[[u8; 4]], k: i32) -> bool;
        fn c_cb_sl_arr4_u8(f: fn(&[[u8; 4]], i32) -> &[[u8; 4]], k: i32) -> bool;
        fn c_run_sl_arr4_u8(pos: i32, k: i32) -> i32;
        fn c_take_slm_u8(x: &mut [u8], k: i32) -> bool;
        fn c_make_slm_u8(z: &mut u8, k: i32) -> &mut [u8];
        fn c_try_slm_u8(z: &mut u8, k: i32, fail: bool) -> Result<&mut [u8]>;
        fn c_echo_slm_u8(x: &mut [u8], k: i32) -> &mut [u8];
        fn c_mix_slm_u8(a: u8, x: &mut [u8], b: f64, k: i32, y: &mut [u8], c: u16) -> Result<bool>;
        fn c_m_slm_u8(self: &CObj, x: &mut [u8], k: i32) -> bool;
        fn c_cb_slm_u8(f: fn(&mut [u8], i32) -> &mut [u8], k: i32) -> bool;
        fn c_run_slm_u8(pos: i32, k: i32) -> i32;
        fn c_take_slm_i64(x: &mut [i64], k: i32) -> bool;
        fn c_make_slm_i64(z: &mut u8, k: i32) -> &mut [i64];
        fn c_try_slm_i64(z: &mut u8, k: i32, fail: bool) -> Result<&mut [i64]>;
        fn c_echo_slm_i64(x: &mut [i64], k: i32) -> &mut [i64];
        fn c_mix_slm_i64(a: u8, x: &mut [i64], b: f64, k: i32, y: &mut [i64], c: u16) -> Result<bool>;
        fn c_m_slm_i64(self: Pin<&mut CObj>, x: &mut [i64], k: i32) -> bool;
        fn c_cb_slm_i64(f: fn(&mut [i64], i32) -> &mut [i64], k: i32) -> bool;
        fn c_run_slm_i64(pos: i32, k: i32) -> i32;
        fn c_take_slm_f32(x: &mut [f32], k: i32) -> bool;
        fn c_make_slm_f32(z: &mut u8, k: i32) -> &mut [f32];
        fn c_try_slm_f32(z: &mut u8, k: i32, fail: bool) -> Result<&mut [f32]>;
        fn c_echo_slm_f32(x: &mut [f32], k: i32) -> &mut [f32];
        fn c_mix_slm_f32(a: u8, x: &mut [f32], b: f64, k: i32, y: &mut [f32], c: u16) -> Result<bool>;
        fn c_m_slm_f32(self: &S3, x: &mut [f32], k: i32) -> bool;
        fn c_cb_slm_f32(f: fn(&mut [f32], i32) -> &mut [f32], k: i32) -> bool;
        fn c_run_slm_f32(pos: i32, k: i32) -> i32;
        fn c_take_slm_String(x: &mut [String], k: i32) -> bool;
        fn c_make_slm_String(z: &mut u8, k: i32) -> &mut [String];
        fn c_try_slm_String(z: &mut u8, k: i32, fail: bool) -> Result<&mut [String]>;
        fn c_echo_slm_String(x: &mut [String], k: i32) -> &mut [String];
        fn c_mix_slm_String(a: u8, x: &mut [String], b: f64, k: i32, y: &mut [String], c: u16) -> Result<bool>;
        fn c_m_slm_String(self: &mut S3, x: &mut [String], k: i32) -> bool;
        fn c_cb_slm_String(f: fn(&mut [String], i32) -> &mut [String], k: i32) -> bool;
        fn c_run_slm_String(pos: i32, k: i32) -> i32;
        fn c_take_slm_S7(x: &mut [S7], k: i32) -> bool;
        fn c_make_slm_S7(z: &mut u8, k: i32) -> &mut [S7];
        fn c_try_slm_S7(z: &mut u8, k: i32, fail: bool) -> Result<&mut [S7]>;
        fn c_echo_slm_S7(x: &mut [S7], k: i32) -> &mut [S7];
        fn c_mix_slm_S7(a: u8, x: &mut [S7], b: f64, k: i32, y: &mut [S7], c: u16) -> Result<bool>;
        fn c_m_slm_S7(self: &CObj, x: &mut [S7], k: i32) -> bool;
        fn c_cb_slm_S7(f: fn(&mut [S7], i32) -> &mut [S7], k: i32) -> bool;
        fn c_run_slm_S7(pos: i32, k: i32) -> i32;
        fn c_take_slm_RObj(x: &mut [RObj], k: i32) -> bool;
        fn c_make_slm_RObj(z: &mut u8, k: i32) -> &mut [RObj];
        fn c_try_slm_RObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut [RObj]>;
        fn c_echo_slm_RObj(x: &mut [RObj], k: i32) -> &mut [RObj];
        fn c_mix_slm_RObj(a: u8, x: &mut [RObj], b: f64, k: i32, y: &mut [RObj], c: u16) -> Result<bool>;
        fn c_m_slm_RObj(self: Pin<&mut CObj>, x: &mut [RObj], k: i32) -> bool;
        fn c_cb_slm_RObj(f: fn(&mut [RObj], i32) -> &mut [RObj], k: i32) -> bool;
        fn c_run_slm_RObj(pos: i32, k: i32) -> i32;
        fn c_take_slm_c_char(x: &mut [c_char], k: i32) -> bool;
        fn c_make_slm_c_char(z: &mut u8, k: i32) -> &mut [c_char];
        fn c_try_slm_c_char(z: &mut u8, k: i32, fail: bool) -> Result<&mut [c_char]>;
        fn c_echo_slm_c_char(x: &mut [c_char], k: i32) -> &mut [c_char];
        fn c_mix_slm_c_char(a: u8, x: &mut [c_char], b: f64, k: i32, y: &mut [c_char], c: u16) -> Result<bool>;
        fn c_m_slm_c_char(self: &S3, x: &mut [c_char], k: i32) -> bool;
        fn c_cb_slm_c_char(f: fn(&mut [c_char], i32) -> &mut [c_char], k: i32) -> bool;
        fn c_run_slm_c_char(pos: i32, k: i32) -> i32;
        fn c_take_slm_Eu16(x: &mut [Eu16], k: i32) -> bool;
        fn c_make_slm_Eu16(z: &mut u8, k: i32) -> &mut [Eu16];
        fn c_try_slm_Eu16(z: &mut u8, k: i32, fail: bool) -> Result<&mut [Eu16]>;
        fn c_echo_slm_Eu16(x: &mut [Eu16], k: i32) -> &mut [Eu16];
        fn c_mix_slm_Eu16(a: u8, x: &mut [Eu16], b: f64, k: i32, y: &mut [Eu16], c: u16) -> Result<bool>;
        fn c_m_slm_Eu16(self: &mut S3, x: &mut [Eu16], k: i32) -> bool;
        fn c_cb_slm_Eu16(f: fn(&mut [Eu16], i32) -> &mut [Eu16], k: i32) -> bool;
        fn c_run_slm_Eu16(pos: i32, k: i32) -> i32;
        fn c_take_slm_TrivC(x: &mut [TrivC], k: i32) -> bool;
        fn c_make_slm_TrivC(z: &mut u8, k: i32) -> &mut [TrivC];
        fn c_try_slm_TrivC(z: &mut u8, k: i32, fail: bool) -> Result<&mut [TrivC]>;
        fn c_echo_slm_TrivC(x: &mut [TrivC], k: i32) -> &mut [TrivC];
        fn c_mix_slm_TrivC(a: u8, x: &mut [TrivC], b: f64, k: i32, y: &mut [TrivC], c: u16) -> Result<bool>;
        fn c_m_slm_TrivC(self: &CObj, x: &mut [TrivC], k: i32) -> bool;
        fn c_cb_slm_TrivC(f: fn(&mut [TrivC], i32) -> &mut [TrivC], k: i32) -> bool;
        fn c_run_slm_TrivC(pos: i32, k: i32) -> i32;
        fn c_take_slm_Box_RObj(x: &mut [Box<RObj>], k: i32) -> bool;
        fn c_make_slm_Box_RObj(z: &mut u8, k: i32) -> &mut [Box<RObj>];
        fn c_try_slm_Box_RObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut [Box<RObj>]>;
        fn c_echo_slm_Box_RObj(x: &mut [Box<RObj>], k: i32) -> &mut [Box<RObj>];
        fn c_mix_slm_Box_RObj(a: u8, x: &mut [Box<RObj>], b: f64, k: i32, y: &mut [Box<RObj>], c: u16) -> Result<bool>;
        fn c_m_slm_Box_RObj(self: Pin<&mut CObj>, x: &mut [Box<RObj>], k: i32) -> bool;
        fn c_cb_slm_Box_RObj(f: fn(&mut [Box<RObj>], i32) -> &mut [Box<RObj>], k: i32) -> bool;
        fn c_run_slm_Box_RObj(pos: i32, k: i32) -> i32;
        unsafe fn c_take_ptrconst_u8(x: *const u8, k: i32) -> bool;
        unsafe fn c_make_ptrconst_u8(k: i32) -> *const u8;
        unsafe fn c_try_ptrconst_u8(k: i32, fail: bool) -> Result<*const u8>;
        unsafe fn c_echo_ptrconst_u8(x: *const u8, k: i32) -> *const u8;
        unsafe fn c_mix_ptrconst_u8(a: u8, x: *const u8, b: f64, k: i32, y: *const u8, c: u16) -> Result<bool>;
        unsafe fn c_m_ptrconst_u8(self: &S3, x: *const u8, k: i32) -> *const u8;
        fn c_run_ptrconst_u8(pos: i32, k: i32) -> i32;
        unsafe fn c_take_ptrmut_u64(x: *mut u64, k: i32) -> bool;
        unsafe fn c_make_ptrmut_u64(k: i32) -> *mut u64;
        unsafe fn c_try_ptrmut_u64(k: i32, fail: bool) -> Result<*mut u64>;
        unsafe fn c_echo_ptrmut_u64(x: *mut u64, k: i32) -> *mut u64;
        unsafe fn c_mix_ptrmut_u64(a: u8, x: *mut u64, b: f64, k: i32, y: *mut u64, c: u16) -> Result<bool>;
        unsafe fn c_m_ptrmut_u64(self: &mut S3, x: *mut u64, k: i32) -> *mut u64;
        fn c_run_ptrmut_u64(pos: i32, k: i32) -> i32;
        unsafe fn c_take_ptrconst_S2(x: *const S2, k: i32) -> bool;
        unsafe fn c_make_ptrconst_S2(k: i32) -> *const S2;
        unsafe fn c_try_ptrconst_S2(k: i32, fail: bool) -> Result<*const S2>;
        unsafe fn c_echo_ptrconst_S2(x: *const S2, k: i32) -> *const S2;
        unsafe fn c_mix_ptrconst_S2(a: u8, x: *const S2, b: f64, k: i32, y: *const S2, c: u16) -> Result<bool>;
        unsafe fn c_m_ptrconst_S2(self: &CObj, x: *const S2, k: i32) -> *const S2;
        fn c_run_ptrconst_S2(pos: i32, k: i32) -> i32;
        unsafe fn c_take_ptrmut_S7(x: *mut S7, k: i32) -> bool;
        unsafe fn c_make_ptrmut_S7(k: i32) -> *mut S7;
        unsafe fn c_try_ptrmut_S7(k: i32, fail: bool) -> Result<*mut S7>;
        unsafe fn c_echo_ptrmut_S7(x: *mut S7, k: i32) -> *mut S7;
        unsafe fn c_mix_ptrmut_S7(a: u8, x: *mut S7, b: f64, k: i32, y: *mut S7, c: u16) -> Result<bool>;
        unsafe fn c_m_ptrmut_S7(self: Pin<&mut CObj>, x: *mut S7, k: i32) -> *mut S7;
        fn c_run_ptrmut_S7(pos: i32, k: i32) -> i32;
        unsafe fn c_take_ptrmut_CObj(x: *mut CObj, k: i32) -> bool;
        unsafe fn c_make_ptrmut_CObj(k: i32) -> *mut CObj;
        unsafe fn c_try_ptrmut_CObj(k: i32, fail: bool) -> Result<*mut CObj>;
        unsafe fn c_echo_ptrmut_CObj(x: *mut CObj, k: i32) -> *mut CObj;
        unsafe fn c_mix_ptrmut_CObj(a: u8, x: *mut CObj, b: f64, k: i32, y: *mut CObj, c: u16) -> Result<bool>;
        unsafe fn c_m_ptrmut_CObj(self: &S3, x: *mut CObj, k: i32) -> *mut CObj;
        fn c_run_ptrmut_CObj(pos: i32, k: i32) -> i32;
        unsafe fn c_take_ptrconst_CObj(x: *const CObj, k: i32) -> bool;
        unsafe fn c_make_ptrconst_CObj(k: i32) -> *const CObj;
        unsafe fn c_try_ptrconst_CObj(k: i32, fail: bool) -> Result<*const CObj>;
        unsafe fn c_echo_ptrconst_CObj(x: *const CObj, k: i32) -> *const CObj;
        unsafe fn c_mix_ptrconst_CObj(a: u8, x: *const CObj, b: f64, k: i32, y: *const CObj, c: u16) -> Result<bool>;
        unsafe fn c_m_ptrconst_CObj(self: &mut S3, x: *const CObj, k: i32) -> *const CObj;
        fn c_run_ptrconst_CObj(pos: i32, k: i32) -> i32;
        unsafe fn c_take_ptrconst_RObj(x: *const RObj, k: i32) -> bool;
        unsafe fn c_make_ptrconst_RObj(k: i32) -> *const RObj;
        unsafe fn c_try_ptrconst_RObj(k: i32, fail: bool) -> Result<*const RObj>;
        unsafe fn c_echo_ptrconst_RObj(x: *const RObj, k: i32) -> *const RObj;
        unsafe fn c_mix_ptrconst_RObj(a: u8, x: *const RObj, b: f64, k: i32, y: *const RObj, c: u16) -> Result<bool>;
        unsafe fn c_m_ptrconst_RObj(self: &CObj, x: *const RObj, k: i32) -> *const RObj;
        fn c_run_ptrconst_RObj(pos: i32, k: i32) -> i32;
        unsafe fn c_take_ptrmut_RObj(x: *mut RObj, k: i32) -> bool;
        unsafe fn c_make_ptrmut_RObj(k: i32) -> *mut RObj;
        unsafe fn c_try_ptrmut_RObj(k: i32, fail: bool) -> Result<*mut RObj>;
        unsafe fn c_echo_ptrmut_RObj(x: *mut RObj, k: i32) -> *mut RObj;
        unsafe fn c_mix_ptrmut_RObj(a: u8, x: *mut RObj, b: f64, k: i32, y: *mut RObj, c: u16) -> Result<bool>;
        unsafe fn c_m_ptrmut_RObj(self: Pin<&mut CObj>, x: *mut RObj, k: i32) -> *mut RObj;
        fn c_run_ptrmut_RObj(pos: i32, k: i32) -> i32;
        unsafe fn c_take_ptrconst_CxxString(x: *const CxxString, k: i32) -> bool;
        unsafe fn c_make_ptrconst_CxxString(k: i32) -> *const CxxString;
        unsafe fn c_try_ptrconst_CxxString(k: i32, fail: bool) -> Result<*const CxxString>;
        unsafe fn c_echo_ptrconst_CxxString(x: *const CxxString, k: i32) -> *const CxxString;
        unsafe fn c_mix_ptrconst_CxxString(a: u8, x: *const CxxString, b: f64, k: i32, y: *const CxxString, c: u16) -> Result<bool>;
        unsafe fn c_m_ptrconst_CxxString(self: &S3, x: *const CxxString, k: i32) -> *const CxxString;
        fn c_run_ptrconst_CxxString(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> bool;
        fn c_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj>;
        fn c_try_UniquePtr_CObj(k: i32, fail: bool) -> Result<UniquePtr<CObj>>;
        fn c_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn c_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CObj(self: &mut S3, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn c_cb_UniquePtr_CObj(f: fn(UniquePtr<CObj>, i32) -> UniquePtr<CObj>, k: i32) -> bool;
        fn c_run_UniquePtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> bool;
        fn c_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj>;
        fn c_try_SharedPtr_CObj(k: i32, fail: bool) -> Result<SharedPtr<CObj>>;
        fn c_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn c_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_SharedPtr_CObj(self: &CObj, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn c_cb_SharedPtr_CObj(f: fn(SharedPtr<CObj>, i32) -> SharedPtr<CObj>, k: i32) -> bool;
        fn c_run_SharedPtr_CObj(pos: i32, k: i32) -> i32;
    }
    extern "Rust" {
        type RObj;
        fn r_new(k: i32) -> Box<RObj>;
        fn r_tag(self: &RObj) -> i32;
        fn r_set(self: &mut RObj, k: i32);
        fn r_slice_RObj(k: i32) -> Vec<RObj>;
        fn r_take_ref_arr4_u8(x: &[u8; 4], k: i32) -> bool;
        fn r_make_ref_arr4_u8(z: &u8, k: i32) -> &[u8; 4];
        fn r_try_ref_arr4_u8(z: &u8, k: i32, fail: bool) -> Result<&[u8; 4]>;
        fn r_echo_ref_arr4_u8(x: &[u8; 4], k: i32) -> &[u8; 4];
        fn r_mix_ref_arr4_u8(a: u8, x: &[u8; 4], b: f64, k: i32, y: &[u8; 4], c: u16) -> Result<bool>;
        fn r_m_ref_arr4_u8(self: &mut RObj, x: &[u8; 4], k: i32) -> bool;
        fn r_take_mut_u8(x: &mut u8, k: i32) -> bool;
        fn r_make_mut_u8(z: &mut u8, k: i32) -> &mut u8;
        fn r_try_mut_u8(z: &mut u8, k: i32, fail: bool) -> Result<&mut u8>;
        fn r_echo_mut_u8(x: &mut u8, k: i32) -> &mut u8;
        fn r_mix_mut_u8(a: u8, x: &mut u8, b: f64, k: i32, y: &mut u8, c: u16) -> Result<bool>;
        fn r_m_mut_u8(self: &S3, x: &mut u8, k: i32) -> bool;
        fn r_take_mut_i64(x: &mut i64, k: i32) -> bool;
        fn r_make_mut_i64(z: &mut u8, k: i32) -> &mut i64;
        fn r_try_mut_i64(z: &mut u8, k: i32, fail: bool) -> Result<&mut i64>;
        fn r_echo_mut_i64(x: &mut i64, k: i32) -> &mut i64;
        fn r_mix_mut_i64(a: u8, x: &mut i64, b: f64, k: i32, y: &mut i64, c: u16) -> Result<bool>;
        fn r_m_mut_i64(self: &mut S3, x: &mut i64, k: i32) -> bool;
        fn r_take_mut_f32(x: &mut f32, k: i32) -> bool;
        fn r_make_mut_f32(z: &mut u8, k: i32) -> &mut f32;
        fn r_try_mut_f32(z: &mut u8, k: i32, fail: bool) -> Result<&mut f32>;
        fn r_echo_mut_f32(x: &mut f32, k: i32) -> &mut f32;
        fn r_mix_mut_f32(a: u8, x: &mut f32, b: f64, k: i32, y: &mut f32, c: u16) -> Result<bool>;
        fn r_m_mut_f32(self: &RObj, x: &mut f32, k: i32) -> bool;
        fn r_take_mut_bool(x: &mut bool, k: i32) -> bool;
        fn r_make_mut_bool(z: &mut u8, k: i32) -> &mut bool;
        fn r_try_mut_bool(z: &mut u8, k: i32, fail: bool) -> Result<&mut bool>;
        fn r_echo_mut_bool(x: &mut bool, k: i32) -> &mut bool;
        fn r_mix_mut_bool(a: u8, x: &mut bool, b: f64, k: i32, y: &mut bool, c: u16) -> Result<bool>;
        fn r_m_mut_bool(self: &mut RObj, x: &mut bool, k: i32) -> bool;
        fn r_take_mut_String(x: &mut String, k: i32) -> bool;
        fn r_make_mut_String(z: &mut u8, k: i32) -> &mut String;
        fn r_try_mut_String(z: &mut u8, k: i32, fail: bool) -> Result<&mut String>;
        fn r_echo_mut_String(x: &mut String, k: i32) -> &mut String;
        fn r_mix_mut_String(a: u8, x: &mut String, b: f64, k: i32, y: &mut String, c: u16) -> Result<bool>;
        fn r_m_mut_String(self: &S3, x: &mut String, k: i32) -> bool;
        fn r_take_mut_S2(x: &mut S2, k: i32) -> bool;
        fn r_make_mut_S2(z: &mut u8, k: i32) -> &mut S2;
        fn r_try_mut_S2(z: &mut u8, k: i32, fail: bool) -> Result<&mut S2>;
        fn r_echo_mut_S2(x: &mut S2, k: i32) -> &mut S2;
        fn r_mix_mut_S2(a: u8, x: &mut S2, b: f64, k: i32, y: &mut S2, c: u16) -> Result<bool>;
        fn r_m_mut_S2(self: &mut S3, x: &mut S2, k: i32) -> bool;
        fn r_take_mut_S7(x: &mut S7, k: i32) -> bool;
        fn r_make_mut_S7(z: &mut u8, k: i32) -> &mut S7;
        fn r_try_mut_S7(z: &mut u8, k: i32, fail: bool) -> Result<&mut S7>;
        fn r_echo_mut_S7(x: &mut S7, k: i32) -> &mut S7;
        fn r_mix_mut_S7(a: u8, x: &mut S7, b: f64, k: i32, y: &mut S7, c: u16) -> Result<bool>;
        fn r_m_mut_S7(self: &RObj, x: &mut S7, k: i32) -> bool;
        fn r_take_mut_RObj(x: &mut RObj, k: i32) -> bool;
        fn r_make_mut_RObj(z: &mut u8, k: i32) -> &mut RObj;
        fn r_try_mut_RObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut RObj>;
        fn r_echo_mut_RObj(x: &mut RObj, k: i32) -> &mut RObj;
        fn r_mix_mut_RObj(a: u8, x: &mut RObj, b: f64, k: i32, y: &mut RObj, c: u16) -> Result<bool>;
        fn r_m_mut_RObj(self: &mut RObj, x: &mut RObj, k: i32) -> bool;
        fn r_take_mut_CObj(x: Pin<&mut CObj>, k: i32) -> bool;
        fn r_make_mut_CObj(z: &mut u8, k: i32) -> Pin<&mut CObj>;
        fn r_try_mut_CObj(z: &mut u8, k: i32, fail: bool) -> Result<Pin<&mut CObj>>;
        fn r_echo_mut_CObj(x: Pin<&mut CObj>, k: i32) -> Pin<&mut CObj>;
        fn r_mix_mut_CObj(a: u8, x: Pin<&mut CObj>, b: f64, k: i32, y: Pin<&mut CObj>, c: u16) -> Result<bool>;
        fn r_m_mut_CObj(self: &S3, x: Pin<&mut CObj>, k: i32) -> bool;
        fn r_take_mut_CxxString(x: Pin<&mut CxxString>, k: i32) -> bool;
        fn r_make_mut_CxxString(z: &mut u8, k: i32) -> Pin<&mut CxxString>;
        fn r_try_mut_CxxString(z: &mut u8, k: i32, fail: bool) -> Result<Pin<&mut CxxString>>;
        fn r_echo_mut_CxxString(x: Pin<&mut CxxString>, k: i32) -> Pin<&mut CxxString>;
        fn r_mix_mut_CxxString(a: u8, x: Pin<&mut CxxString>, b: f64, k: i32, y: Pin<&mut CxxString>, c: u16) -> Result<bool>;
        fn r_m_mut_CxxString(self: &mut S3, x: Pin<&mut CxxString>, k: i32) -> bool;
        fn r_take_mut_CxxVector_u8(x: Pin<&mut CxxVector<u8>>, k: i32) -> bool;
        fn r_make_mut_CxxVector_u8(z: &mut u8, k: i32) -> Pin<&mut CxxVector<u8>>;
        fn r_try_mut_CxxVector_u8(z: &mut u8, k: i32, fail: bool) -> Result<Pin<&mut CxxVector<u8>>>;
        fn r_echo_mut_CxxVector_u8(x: Pin<&mut CxxVector<u8>>, k: i32) -> Pin<&mut CxxVector<u8>>;
        fn r_mix_mut_CxxVector_u8(a: u8, x: Pin<&mut CxxVector<u8>>, b: f64, k: i32, y: Pin<&mut CxxVector<u8>>, c: u16) -> Result<bool>;
        fn r_m_mut_CxxVector_u8(self: &RObj, x: Pin<&mut CxxVector<u8>>, k: i32) -> bool;
        fn r_take_mut_CxxVector_S2(x: Pin<&mut CxxVector<S2>>, k: i32) -> bool;
        fn r_make_mut_CxxVector_S2(z: &mut u8, k: i32) -> Pin<&mut CxxVector<S2>>;
        fn r_try_mut_CxxVector_S2(z: &mut u8, k: i32, fail: bool) -> Result<Pin<&mut CxxVector<S2>>>;
        fn r_echo_mut_CxxVector_S2(x: Pin<&mut CxxVector<S2>>, k: i32) -> Pin<&mut CxxVector<S2>>;
        fn r_mix_mut_CxxVector_S2(a: u8, x: Pin<&mut CxxVector<S2>>, b: f64, k: i32, y: Pin<&mut CxxVector<S2>>, c: u16) -> Result<bool>;
        fn r_m_mut_CxxVector_S2(self: &mut RObj, x: Pin<&mut CxxVector<S2>>, k: i32) -> bool;
        fn r_take_mut_Vec_u8(x: &mut Vec<u8>, k: i32) -> bool;
        fn r_make_mut_Vec_u8(z: &mut u8, k: i32) -> &mut Vec<u8>;
        fn r_try_mut_Vec_u8(z: &mut u8, k: i32, fail: bool) -> Result<&mut Vec<u8>>;
        fn r_echo_mut_Vec_u8(x: &mut Vec<u8>, k: i32) -> &mut Vec<u8>;
        fn r_mix_mut_Vec_u8(a: u8, x: &mut Vec<u8>, b: f64, k: i32, y: &mut Vec<u8>, c: u16) -> Result<bool>;
        fn r_m_mut_Vec_u8(self: &S3, x: &mut Vec<u8>, k: i32) -> bool;
        fn r_take_mut_Vec_String(x: &mut Vec<String>, k: i32) -> bool;
        fn r_make_mut_Vec_String(z: &mut u8, k: i32) -> &mut Vec<String>;
        fn r_try_mut_Vec_String(z: &mut u8, k: i32, fail: bool) -> Result<&mut Vec<String>>;
        fn r_echo_mut_Vec_String(x: &mut Vec<String>, k: i32) -> &mut Vec<String>;
        fn r_mix_mut_Vec_String(a: u8, x: &mut Vec<String>, b: f64, k: i32, y: &mut Vec<String>, c: u16) -> Result<bool>;
        fn r_m_mut_Vec_String(self: &mut S3, x: &mut Vec<String>, k: i32) -> bool;
        fn r_take_mut_Box_RObj(x: &mut Box<RObj>, k: i32) -> bool;
        fn r_make_mut_Box_RObj(z: &mut u8, k: i32) -> &mut Box<RObj>;
        fn r_try_mut_Box_RObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut Box<RObj>>;
        fn r_echo_mut_Box_RObj(x: &mut Box<RObj>, k: i32) -> &mut Box<RObj>;
        fn r_mix_mut_Box_RObj(a: u8, x: &mut Box<RObj>, b: f64, k: i32, y: &mut Box<RObj>, c: u16) -> Result<bool>;
        fn r_m_mut_Box_RObj(self: &RObj, x: &mut Box<RObj>, k: i32) -> bool;
        fn r_take_mut_UniquePtr_CObj(x: &mut UniquePtr<CObj>, k: i32) -> bool;
        fn r_make_mut_UniquePtr_CObj(z: &mut u8, k: i32) -> &mut UniquePtr<CObj>;
        fn r_try_mut_UniquePtr_CObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut UniquePtr<CObj>>;
        fn r_echo_mut_UniquePtr_CObj(x: &mut UniquePtr<CObj>, k: i32) -> &mut UniquePtr<CObj>;
        fn r_mix_mut_UniquePtr_CObj(a: u8, x: &mut UniquePtr<CObj>, b: f64, k: i32, y: &mut UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_mut_UniquePtr_CObj(self: &mut RObj, x: &mut UniquePtr<CObj>, k: i32) -> bool;
        fn r_take_mut_SharedPtr_CObj(x: &mut SharedPtr<CObj>, k: i32) -> bool;
        fn r_make_mut_SharedPtr_CObj(z: &mut u8, k: i32) -> &mut SharedPtr<CObj>;
        fn r_try_mut_SharedPtr_CObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut SharedPtr<CObj>>;
        fn r_echo_mut_SharedPtr_CObj(x: &mut SharedPtr<CObj>, k: i32) -> &mut SharedPtr<CObj>;
        fn r_mix_mut_SharedPtr_CObj(a: u8, x: &mut SharedPtr<CObj>, b: f64, k: i32, y: &mut SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_mut_SharedPtr_CObj(self: &S3, x: &mut SharedPtr<CObj>, k: i32) -> bool;
        fn r_take_mut_Ei32(x: &mut Ei32, k: i32) -> bool;
        fn r_make_mut_Ei32(z: &mut u8, k: i32) -> &mut Ei32;
        fn r_try_mut_Ei32(z: &mut u8, k: i32, fail: bool) -> Result<&mut Ei32>;
        fn r_echo_mut_Ei32(x: &mut Ei32, k: i32) -> &mut Ei32;
        fn r_mix_mut_Ei32(a: u8, x: &mut Ei32, b: f64, k: i32, y: &mut Ei32, c: u16) -> Result<bool>;
        fn r_m_mut_Ei32(self: &mut S3, x: &mut Ei32, k: i32) -> bool;
        fn r_take_mut_TrivB(x: &mut TrivB, k: i32) -> bool;
        fn r_make_mut_TrivB(z: &mut u8, k: i32) -> &mut TrivB;
        fn r_try_mut_TrivB(z: &mut u8, k: i32, fail: bool) -> Result<&mut TrivB>;
        fn r_echo_mut_TrivB(x: &mut TrivB, k: i32) -> &mut TrivB;
        fn r_mix_mut_TrivB(a: u8, x: &mut TrivB, b: f64, k: i32, y: &mut TrivB, c: u16) -> Result<bool>;
        fn r_m_mut_TrivB(self: &RObj, x: &mut TrivB, k: i32) -> bool;
        fn r_take_mut_arr3_S2(x: &mut [S2; 3], k: i32) -> bool;
        fn r_make_mut_arr3_S2(z: &mut u8, k: i32) -> &mut [S2; 3];
        fn r_try_mut_arr3_S2(z: &mut u8, k: i32, fail: bool) -> Result<&mut [S2; 3]>;
        fn r_echo_mut_arr3_S2(x: &mut [S2; 3], k: i32) -> &mut [S2; 3];
        fn r_mix_mut_arr3_S2(a: u8, x: &mut [S2; 3], b: f64, k: i32, y: &mut [S2; 3], c: u16) -> Result<bool>;
        fn r_m_mut_arr3_S2(self: &mut RObj, x: &mut [S2; 3], k: i32) -> bool;
        fn r_take_sl_u8(x: &[u8], k: i32) -> bool;
        fn r_make_sl_u8(z: &u8, k: i32) -> &[u8];
        fn r_try_sl_u8(z: &u8, k: i32, fail: bool) -> Result<&[u8]>;
        fn r_echo_sl_u8(x: &[u8], k: i32) -> &[u8];
        fn r_mix_sl_u8(a: u8, x: &[u8], b: f64, k: i32, y: &[u8], c: u16) -> Result<bool>;
        fn r_m_sl_u8(self: &S3, x: &[u8], k: i32) -> bool;
        fn r_take_sl_u16(x: &[u16], k: i32) -> bool;
        fn r_make_sl_u16(z: &u8, k: i32) -> &[u16];
        fn r_try_sl_u16(z: &u8, k: i32, fail: bool) -> Result<&[u16]>;
        fn r_echo_sl_u16(x: &[u16], k: i32) -> &[u16];
        fn r_mix_sl_u16(a: u8, x: &[u16], b: f64, k: i32, y: &[u16], c: u16) -> Result<bool>;
        fn r_m_sl_u16(self: &mut S3, x: &[u16], k: i32) -> bool;
        fn r_take_sl_i32(x: &[i32], k: i32) -> bool;
        fn r_make_sl_i32(z: &u8, k: i32) -> &[i32];
        fn r_try_sl_i32(z: &u8, k: i32, fail: bool) -> Result<&[i32]>;
        fn r_echo_sl_i32(x: &[i32], k: i32) -> &[i32];
        fn r_mix_sl_i32(a: u8, x: &[i32], b: f64, k: i32, y: &[i32], c: u16) -> Result<bool>;
        fn r_m_sl_i32(self: &RObj, x: &[i32], k: i32) -> bool;
        fn r_take_sl_f64(x: &[f64], k: i32) -> bool;
        fn r_make_sl_f64(z: &u8, k: i32) -> &[f64];
        fn r_try_sl_f64(z: &u8, k: i32, fail: bool) -> Result<&[f64]>;
        fn r_echo_sl_f64(x: &[f64], k: i32) -> &[f64];
        fn r_mix_sl_f64(a: u8, x: &[f64], b: f64, k: i32, y: &[f64], c: u16) -> Result<bool>;
        fn r_m_sl_f64(self: &mut RObj, x: &[f64], k: i32) -> bool;
        fn r_take_sl_bool(x: &[bool], k: i32) -> bool;
        fn r_make_sl_bool(z: &u8, k: i32) -> &[bool];
        fn r_try_sl_bool(z: &u8, k: i32, fail: bool) -> Result<&[bool]>;
        fn r_echo_sl_bool(x: &[bool], k: i32) -> &[bool];
        fn r_mix_sl_bool(a: u8, x: &[bool], b: f64, k: i32, y: &[bool], c: u16) -> Result<bool>;
        fn r_m_sl_bool(self: &S3, x: &[bool], k: i32) -> bool;
        fn r_take_sl_usize(x: &[usize], k: i32) -> bool;
        fn r_make_sl_usize(z: &u8, k: i32) -> &[usize];
        fn r_try_sl_usize(z: &u8, k: i32, fail: bool) -> Result<&[usize]>;
        fn r_echo_sl_usize(x: &[usize], k: i32) -> &[usize];
        fn r_mix_sl_usize(a: u8, x: &[usize], b: f64, k: i32, y: &[usize], c: u16) -> Result<bool>;
        fn r_m_sl_usize(self: &mut S3, x: &[usize], k: i32) -> bool;
        fn r_take_sl_c_char(x: &[c_char], k: i32) -> bool;
        fn r_make_sl_c_char(z: &u8, k: i32) -> &[c_char];
        fn r_try_sl_c_char(z: &u8, k: i32, fail: bool) -> Result<&[c_char]>;
        fn r_echo_sl_c_char(x: &[c_char], k: i32) -> &[c_char];
        fn r_mix_sl_c_char(a: u8, x: &[c_char], b: f64, k: i32, y: &[c_char], c: u16) -> Result<bool>;
        fn r_m_sl_c_char(self: &RObj, x: &[c_char], k: i32) -> bool;
        fn r_take_sl_String(x: &[String], k: i32) -> bool;
        fn r_make_sl_String(z: &u8, k: i32) -> &[String];
        fn r_try_sl_String(z: &u8, k: i32, fail: bool) -> Result<&[String]>;
        fn r_echo_sl_String(x: &[String], k: i32) -> &[String];
        fn r_mix_sl_String(a: u8, x: &[String], b: f64, k: i32, y: &[String], c: u16) -> Result<bool>;
        fn r_m_sl_String(self: &mut RObj, x: &[String], k: i32) -> bool;
        fn r_take_sl_S2(x: &[S2], k: i32) -> bool;
        fn r_make_sl_S2(z: &u8, k: i32) -> &[S2];
        fn r_try_sl_S2(z: &u8, k: i32, fail: bool) -> Result<&[S2]>;
        fn r_echo_sl_S2(x: &[S2], k: i32) -> &[S2];
        fn r_mix_sl_S2(a: u8, x: &[S2], b: f64, k: i32, y: &[S2], c: u16) -> Result<bool>;
        fn r_m_sl_S2(self: &S3, x: &[S2], k: i32) -> bool;
        fn r_take_sl_S7(x: &[S7], k: i32) -> bool;
        fn r_make_sl_S7(z: &u8, k: i32) -> &[S7];
        fn r_try_sl_S7(z: &u8, k: i32, fail: bool) -> Result<&[S7]>;
        fn r_echo_sl_S7(x: &[S7], k: i32) -> &[S7];
        fn r_mix_sl_S7(a: u8, x: &[S7], b: f64, k: i32, y: &[S7], c: u16) -> Result<bool>;
        fn r_m_sl_S7(self: &mut S3, x: &[S7], k: i32) -> bool;
        fn r_take_sl_Ei8(x: &[Ei8], k: i32) -> bool;
        fn r_make_sl_Ei8(z: &u8, k: i32) -> &[Ei8];
        fn r_try_sl_Ei8(z: &u8, k: i32, fail: bool) -> Result<&[Ei8]>;
        fn r_echo_sl_Ei8(x: &[Ei8], k: i32) -> &[Ei8];
        fn r_mix_sl_Ei8(a: u8, x: &[Ei8], b: f64, k: i32, y: &[Ei8], c: u16) -> Result<bool>;
        fn r_m_sl_Ei8(self: &RObj, x: &[Ei8], k: i32) -> bool;
        fn r_take_sl_TrivA(x: &[TrivA], k: i32) -> bool;
        fn r_make_sl_TrivA(z: &u8, k: i32) -> &[TrivA];
        fn r_try_sl_TrivA(z: &u8, k: i32, fail: bool) -> Result<&[TrivA]>;
        fn r_echo_sl_TrivA(x: &[TrivA], k: i32) -> &[TrivA];
        fn r_mix_sl_TrivA(a: u8, x: &[TrivA], b: f64, k: i32, y: &[TrivA], c: u16) -> Result<bool>;
        fn r_m_sl_TrivA(self: &mut RObj, x: &[TrivA], k: i32) -> bool;
        fn r_take_sl_RObj(x: &[RObj], k: i32) -> bool;
        fn r_make_sl_RObj(z: &u8, k: i32) -> &[RObj];
        fn r_try_sl_RObj(z: &u8, k: i32, fail: bool) -> Result<&[RObj]>;
        fn r_echo_sl_RObj(x: &[RObj], k: i32) -> &[RObj];
        fn r_mix_sl_RObj(a: u8, x: &[RObj], b: f64, k: i32, y: &[RObj], c: u16) -> Result<bool>;
        fn r_m_sl_RObj(self: &S3, x: &[RObj], k: i32) -> bool;
        fn r_take_sl_Box_RObj(x: &[Box<RObj>], k: i32) -> bool;
        fn r_make_sl_Box_RObj(z: &u8, k: i32) -> &[Box<RObj>];
        fn r_try_sl_Box_RObj(z: &u8, k: i32, fail: bool) -> Result<&[Box<RObj>]>;
        fn r_echo_sl_Box_RObj(x: &[Box<RObj>], k: i32) -> &[Box<RObj>];
        fn r_mix_sl_Box_RObj(a: u8, x: &[Box<RObj>], b: f64, k: i32, y: &[Box<RObj>], c: u16) -> Result<bool>;
        fn r_m_sl_Box_RObj(self: &mut S3, x: &[Box<RObj>], k: i32) -> bool;
        fn r_take_sl_UniquePtr_CObj(x: &[UniquePtr<CObj>], k: i32) -> bool;
        fn r_make_sl_UniquePtr_CObj(z: &u8, k: i32) -> &[UniquePtr<CObj>];
        fn r_try_sl_UniquePtr_CObj(z: &u8, k: i32, fail: bool) -> Result<&[UniquePtr<CObj>]>;
        fn r_echo_sl_UniquePtr_CObj(x: &[UniquePtr<CObj>], k: i32) -> &[UniquePtr<CObj>];
        fn r_mix_sl_UniquePtr_CObj(a: u8, x: &[UniquePtr<CObj>], b: f64, k: i32, y: &[UniquePtr<CObj>], c: u16) -> Result<bool>;
        fn r_m_sl_UniquePtr_CObj(self: &RObj, x: &[UniquePtr<CObj>], k: i32) -> bool;
        fn r_take_sl_Vec_u8(x: &[Vec<u8>], k: i32) -> bool;
        fn r_make_sl_Vec_u8(z: &u8, k: i32) -> &[Vec<u8>];
        fn r_try_sl_Vec_u8(z: &u8, k: i32, fail: bool) -> Result<&[Vec<u8>]>;
        fn r_echo_sl_Vec_u8(x: &[Vec<u8>], k: i32) -> &[Vec<u8>];
        fn r_mix_sl_Vec_u8(a: u8, x: &[Vec<u8>], b: f64, k: i32, y: &[Vec<u8>], c: u16) -> Result<bool>;
        fn r_m_sl_Vec_u8(self: &mut RObj, x: &[Vec<u8>], k: i32) -> bool;
        fn r_take_sl_f32(x: &[f32], k: i32) -> bool;
        fn r_make_sl_f32(z: &u8, k: i32) -> &[f32];
        fn r_try_sl_f32(z: &u8, k: i32, fail: bool) -> Result<&[f32]>;
        fn r_echo_sl_f32(x: &[f32], k: i32) -> &[f32];
        fn r_mix_sl_f32(a: u8, x: &[f32], b: f64, k: i32, y: &[f32], c: u16) -> Result<bool>;
        fn r_m_sl_f32(self: &S3, x: &[f32], k: i32) -> bool;
        fn r_take_sl_isize(x: &[isize], k: i32) -> bool;
        fn r_make_sl_isize(z: &u8, k: i32) -> &[isize];
        fn r_try_sl_isize(z: &u8, k: i32, fail: bool) -> Result<&[isize]>;
        fn r_echo_sl_isize(x: &[isize], k: i32) -> &[isize];
        fn r_mix_sl_isize(a: u8, x: &[isize], b: f64, k: i32, y: &[isize], c: u16) -> Result<bool>;
        fn r_m_sl_isize(self: &mut S3, x: &[isize], k: i32) -> bool;
        fn r_take_sl_arr4_u8(x: &[[u8; 4]], k: i32) -> bool;
        fn r_make_sl_arr4_u8(z: &u8, k: i32) -> &[[u8; 4]];
        fn r_try_sl_arr4_u8(z: &u8, k: i32, fail: bool) -> Result<&[[u8; 4]]>;
        fn r_echo_sl_arr4_u8(x: &[[u8; 4]], k: i32) -> &[[u8; 4]];
        fn r_mix_sl_arr4_u8(a: u8, x: &[[u8; 4]], b: f64, k: i32, y: &[[u8; 4]], c: u16) -> Result<bool>;
        fn r_m_sl_arr4_u8(self: &RObj, x: &[[u8; 4]], k: i32) -> bool;
        fn r_take_slm_u8(x: &mut [u8], k: i32) -> bool;
        fn r_make_slm_u8(z: &mut u8, k: i32) -> &mut [u8];
        fn r_try_slm_u8(z: &mut u8, k: i32, fail: bool) -> Result<&mut [u8]>;
        fn r_echo_slm_u8(x: &mut [u8], k: i32) -> &mut [u8];
        fn r_mix_slm_u8(a: u8, x: &mut [u8], b: f64, k: i32, y: &mut [u8], c: u16) -> Result<bool>;
        fn r_m_slm_u8(self: &mut RObj, x: &mut [u8], k: i32) -> bool;
        fn r_take_slm_i64(x: &mut [i64], k: i32) -> bool;
        fn r_make_slm_i64(z: &mut u8, k: i32) -> &mut [i64];
        fn r_try_slm_i64(z: &mut u8, k: i32, fail: bool) -> Result<&mut [i64]>;
        fn r_echo_slm_i64(x: &mut [i64], k: i32) -> &mut [i64];
        fn r_mix_slm_i64(a: u8, x: &mut [i64], b: f64, k: i32, y: &mut [i64], c: u16) -> Result<bool>;
        fn r_m_slm_i64(self: &S3, x: &mut [i64], k: i32) -> bool;
        fn r_take_slm_f32(x: &mut [f32], k: i32) -> bool;
        fn r_make_slm_f32(z: &mut u8, k: i32) -> &mut [f32];
        fn r_try_slm_f32(z: &mut u8, k: i32, fail: bool) -> Result<&mut [f32]>;
        fn r_echo_slm_f32(x: &mut [f32], k: i32) -> &mut [f32];
        fn r_mix_slm_f32(a: u8, x: &mut [f32], b: f64, k: i32, y: &mut [f32], c: u16) -> Result<bool>;
        fn r_m_slm_f32(self: &mut S3, x: &mut [f32], k: i32) -> bool;
        fn r_take_slm_String(x: &mut [String], k: i32) -> bool;
        fn r_make_slm_String(z: &mut u8, k: i32) -> &mut [String];
        fn r_try_slm_String(z: &mut u8, k: i32, fail: bool) -> Result<&mut [String]>;
        fn r_echo_slm_String(x: &mut [String], k: i32) -> &mut [String];
        fn r_mix_slm_String(a: u8, x: &mut [String], b: f64, k: i32, y: &mut [String], c: u16) -> Result<bool>;
        fn r_m_slm_String(self: &RObj, x: &mut [String], k: i32) -> bool;
        fn r_take_slm_S7(x: &mut [S7], k: i32) -> bool;
        fn r_make_slm_S7(z: &mut u8, k: i32) -> &mut [S7];
        fn r_try_slm_S7(z: &mut u8, k: i32, fail: bool) -> Result<&mut [S7]>;
        fn r_echo_slm_S7(x: &mut [S7], k: i32) -> &mut [S7];
        fn r_mix_slm_S7(a: u8, x: &mut [S7], b: f64, k: i32, y: &mut [S7], c: u16) -> Result<bool>;
        fn r_m_slm_S7(self: &mut RObj, x: &mut [S7], k: i32) -> bool;
        fn r_take_slm_RObj(x: &mut [RObj], k: i32) -> bool;
        fn r_make_slm_RObj(z: &mut u8, k: i32) -> &mut [RObj];
        fn r_try_slm_RObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut [RObj]>;
        fn r_echo_slm_RObj(x: &mut [RObj], k: i32) -> &mut [RObj];
        fn r_mix_slm_RObj(a: u8, x: &mut [RObj], b: f64, k: i32, y: &mut [RObj], c: u16) -> Result<bool>;
        fn r_m_slm_RObj(self: &S3, x: &mut [RObj], k: i32) -> bool;
        fn r_take_slm_c_char(x: &mut [c_char], k: i32) -> bool;
        fn r_make_slm_c_char(z: &mut u8, k: i32) -> &mut [c_char];
        fn r_try_slm_c_char(z: &mut u8, k: i32, fail: bool) -> Result<&mut [c_char]>;
        fn r_echo_slm_c_char(x: &mut [c_char], k: i32) -> &mut [c_char];
        fn r_mix_slm_c_char(a: u8, x: &mut [c_char], b: f64, k: i32, y: &mut [c_char], c: u16) -> Result<bool>;
        fn r_m_slm_c_char(self: &mut S3, x: &mut [c_char], k: i32) -> bool;
        fn r_take_slm_Eu16(x: &mut [Eu16], k: i32) -> bool;
        fn r_make_slm_Eu16(z: &mut u8, k: i32) -> &mut [Eu16];
        fn r_try_slm_Eu16(z: &mut u8, k: i32, fail: bool) -> Result<&mut [Eu16]>;
        fn r_echo_slm_Eu16(x: &mut [Eu16], k: i32) -> &mut [Eu16];
        fn r_mix_slm_Eu16(a: u8, x: &mut [Eu16], b: f64, k: i32, y: &mut [Eu16], c: u16) -> Result<bool>;
        fn r_m_slm_Eu16(self: &RObj, x: &mut [Eu16], k: i32) -> bool;
        fn r_take_slm_TrivC(x: &mut [TrivC], k: i32) -> bool;
        fn r_make_slm_TrivC(z: &mut u8, k: i32) -> &mut [TrivC];
        fn r_try_slm_TrivC(z: &mut u8, k: i32, fail: bool) -> Result<&mut [TrivC]>;
        fn r_echo_slm_TrivC(x: &mut [TrivC], k: i32) -> &mut [TrivC];
        fn r_mix_slm_TrivC(a: u8, x: &mut [TrivC], b: f64, k: i32, y: &mut [TrivC], c: u16) -> Result<bool>;
        fn r_m_slm_TrivC(self: &mut RObj, x: &mut [TrivC], k: i32) -> bool;
        fn r_take_slm_Box_RObj(x: &mut [Box<RObj>], k: i32) -> bool;
        fn r_make_slm_Box_RObj(z: &mut u8, k: i32) -> &mut [Box<RObj>];
        fn r_try_slm_Box_RObj(z: &mut u8, k: i32, fail: bool) -> Result<&mut [Box<RObj>]>;
        fn r_echo_slm_Box_RObj(x: &mut [Box<RObj>], k: i32) -> &mut [Box<RObj>];
        fn r_mix_slm_Box_RObj(a: u8, x: &mut [Box<RObj>], b: f64, k: i32, y: &mut [Box<RObj>], c: u16) -> Result<bool>;
        fn r_m_slm_Box_RObj(self: &S3, x: &mut [Box<RObj>], k: i32) -> bool;
        unsafe fn r_take_ptrconst_u8(x: *const u8, k: i32) -> bool;
        unsafe fn r_make_ptrconst_u8(k: i32) -> *const u8;
        unsafe fn r_try_ptrconst_u8(k: i32, fail: bool) -> Result<*const u8>;
        unsafe fn r_echo_ptrconst_u8(x: *const u8, k: i32) -> *const u8;
        unsafe fn r_mix_ptrconst_u8(a: u8, x: *const u8, b: f64, k: i32, y: *const u8, c: u16) -> Result<bool>;
        unsafe fn r_m_ptrconst_u8(self: &mut S3, x: *const u8, k: i32) -> *const u8;
        unsafe fn r_take_ptrmut_u64(x: *mut u64, k: i32) -> bool;
        unsafe fn r_make_ptrmut_u64(k: i32) -> *mut u64;
        unsafe fn r_try_ptrmut_u64(k: i32, fail: bool) -> Result<*mut u64>;
        unsafe fn r_echo_ptrmut_u64(x: *mut u64, k: i32) -> *mut u64;
        unsafe fn r_mix_ptrmut_u64(a: u8, x: *mut u64, b: f64, k: i32, y: *mut u64, c: u16) -> Result<bool>;
        unsafe fn r_m_ptrmut_u64(self: &RObj, x: *mut u64, k: i32) -> *mut u64;
        unsafe fn r_take_ptrconst_S2(x: *const S2, k: i32) -> bool;
        unsafe fn r_make_ptrconst_S2(k: i32) -> *const S2;
        unsafe fn r_try_ptrconst_S2(k: i32, fail: bool) -> Result<*const S2>;
        unsafe fn r_echo_ptrconst_S2(x: *const S2, k: i32) -> *const S2;
        unsafe fn r_mix_ptrconst_S2(a: u8, x: *const S2, b: f64, k: i32, y: *const S2, c: u16) -> Result<bool>;
        unsafe fn r_m_ptrconst_S2(self: &mut RObj, x: *const S2, k: i32) -> *const S2;
        unsafe fn r_take_ptrmut_S7(x: *mut S7, k: i32) -> bool;
        unsafe fn r_make_ptrmut_S7(k: i32) -> *mut S7;
        unsafe fn r_try_ptrmut_S7(k: i32, fail: bool) -> Result<*mut S7>;
        unsafe fn r_echo_ptrmut_S7(x: *mut S7, k: i32) -> *mut S7;
        unsafe fn r_mix_ptrmut_S7(a: u8, x: *mut S7, b: f64, k: i32, y: *mut S7, c: u16) -> Result<bool>;
        unsafe fn r_m_ptrmut_S7(self: &S3, x: *mut S7, k: i32) -> *mut S7;
        unsafe fn r_take_ptrmut_CObj(x: *mut CObj, k: i32) -> bool;
        unsafe fn r_make_ptrmut_CObj(k: i32) -> *mut CObj;
        unsafe fn r_try_ptrmut_CObj(k: i32, fail: bool) -> Result<*mut CObj>;
        unsafe fn r_echo_ptrmut_CObj(x: *mut CObj, k: i32) -> *mut CObj;
        unsafe fn r_mix_ptrmut_CObj(a: u8, x: *mut CObj, b: f64, k: i32, y: *mut CObj, c: u16) -> Result<bool>;
        unsafe fn r_m_ptrmut_CObj(self: &mut S3, x: *mut CObj, k: i32) -> *mut CObj;
        unsafe fn r_take_ptrconst_CObj(x: *const CObj, k: i32) -> bool;
        unsafe fn r_make_ptrconst_CObj(k: i32) -> *const CObj;
        unsafe fn r_try_ptrconst_CObj(k: i32, fail: bool) -> Result<*const CObj>;
        unsafe fn r_echo_ptrconst_CObj(x: *const CObj, k: i32) -> *const CObj;
        unsafe fn r_mix_ptrconst_CObj(a: u8, x: *const CObj, b: f64, k: i32, y: *const CObj, c: u16) -> Result<bool>;
        unsafe fn r_m_ptrconst_CObj(self: &RObj, x: *const CObj, k: i32) -> *const CObj;
        unsafe fn r_take_ptrconst_RObj(x: *const RObj, k: i32) -> bool;
        unsafe fn r_make_ptrconst_RObj(k: i32) -> *const RObj;
        unsafe fn r_try_ptrconst_RObj(k: i32, fail: bool) -> Result<*const RObj>;
        unsafe fn r_echo_ptrconst_RObj(x: *const RObj, k: i32) -> *const RObj;
        unsafe fn r_mix_ptrconst_RObj(a: u8, x: *const RObj, b: f64, k: i32, y: *const RObj, c: u16) -> Result<bool>;
        unsafe fn r_m_ptrconst_RObj(self: &mut RObj, x: *const RObj, k: i32) -> *const RObj;
        unsafe fn r_take_ptrmut_RObj(x: *mut RObj, k: i32) -> bool;
        unsafe fn r_make_ptrmut_RObj(k: i32) -> *mut RObj;
        unsafe fn r_try_ptrmut_RObj(k: i32, fail: bool) -> Result<*mut RObj>;
        unsafe fn r_echo_ptrmut_RObj(x: *mut RObj, k: i32) -> *mut RObj;
        unsafe fn r_mix_ptrmut_RObj(a: u8, x: *mut RObj, b: f64, k: i32, y: *mut RObj, c: u16) -> Result<bool>;
        unsafe fn r_m_ptrmut_RObj(self: &S3, x: *mut RObj, k: i32) -> *mut RObj;
        unsafe fn r_take_ptrconst_CxxString(x: *const CxxString, k: i32) -> bool;
        unsafe fn r_make_ptrconst_CxxString(k: i32) -> *const CxxString;
        unsafe fn r_try_ptrconst_CxxString(k: i32, fail: bool) -> Result<*const CxxString>;
        unsafe fn r_echo_ptrconst_CxxString(x: *const CxxString, k: i32) -> *const CxxString;
        unsafe fn r_mix_ptrconst_CxxString(a: u8, x: *const CxxString, b: f64, k: i32, y: *const CxxString, c: u16) -> Result<bool>;
        unsafe fn r_m_ptrconst_CxxString(self: &mut S3, x: *const CxxString, k: i32) -> *const CxxString;
        fn r_take_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> bool;
        fn r_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj>;
        fn r_try_UniquePtr_CObj(k: i32, fail: bool) -> Result<UniquePtr<CObj>>;
        fn r_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn r_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CObj(self: &RObj, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn r_take_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> bool;
        fn r_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj>;
        fn r_try_SharedPtr_CObj(k: i32, fail: bool) -> Result<SharedPtr<CObj>>;
        fn r_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn r_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_SharedPtr_CObj(self: &mut RObj, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
    }
}
#[repr(C)] pub struct TrivB { pub f0: f64, pub f1: f64 }
unsafe impl cxx::ExternType for TrivB { type Id = cxx::type_id!("c09c::TrivB"); type Kind = cxx::kind::Trivial; }
#[repr(C)] pub struct TrivA { pub f0: i32 }
unsafe impl cxx::ExternType for TrivA { type Id = cxx::type_id!("c09c::TrivA"); type Kind = cxx::kind::Trivial; }
#[repr(C)] pub struct TrivC { pub f0: u64, pub f1: u8, pub f2: u64, pub f3: u16 }
unsafe impl cxx::ExternType for TrivC { type Id = cxx::type_id!("c09c::TrivC"); type Kind = cxx::kind::Trivial; }
fn mk_f32(k: i32) -> f32 { f32::from_bits([0x80000000, 0x7f800000, 0x3fc00000, 0x7fc00001][k as usize]) }
fn ck_f32(v: &f32, k: i32) -> bool { v.to_bits() == mk_f32(k).to_bits() }
fn ad_f32(v: &f32) -> usize { 0 }
fn mk_S3(k: i32) -> S3 { S3 { f0: mk_f32((k + 0) & 3), f1: mk_f32((k + 1) & 3) } }
fn ck_S3(v: &S3, k: i32) -> bool { ck_f32(&v.f0, (k + 0) & 3) && ck_f32(&v.f1, (k + 1) & 3) }
fn ad_S3(v: &S3) -> usize { 0 }
fn mk_u8(k: i32) -> u8 { [0, 1, 128, 255][k as usize] }
fn ck_u8(v: &u8, k: i32) -> bool { *v == mk_u8(k) }
fn ad_u8(v: &u8) -> usize { 0 }
fn mk_arr4_u8(k: i32) -> [u8; 4] { std::array::from_fn(|i| mk_u8((k + i as i32) & 3)) }
fn ck_arr4_u8(v: &[u8; 4], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_arr4_u8(v: &[u8; 4]) -> usize { 0 }
fn mk_ref_arr4_u8(k: i32) -> &'static [u8; 4] { &*rs_arr4_u8(k) }
fn ck_ref_arr4_u8(v: &&[u8; 4], k: i32) -> bool { ck_arr4_u8(*v, k) }
fn ad_ref_arr4_u8(v: &&[u8; 4]) -> usize { *v as *const _ as *const u8 as usize }
fn mk_mut_u8(k: i32) -> &'static mut u8 { rs_u8(k) }
fn ck_mut_u8(v: &&mut u8, k: i32) -> bool { ck_u8(&**v, k) }
fn ad_mut_u8(v: &&mut u8) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_i64(k: i32) -> i64 { [0, 1, -9223372036854775808, 9223372036854775807][k as usize] }
fn ck_i64(v: &i64, k: i32) -> bool { *v == mk_i64(k) }
fn ad_i64(v: &i64) -> usize { 0 }
fn mk_mut_i64(k: i32) -> &'static mut i64 { rs_i64(k) }
fn ck_mut_i64(v: &&mut i64, k: i32) -> bool { ck_i64(&**v, k) }
fn ad_mut_i64(v: &&mut i64) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_mut_f32(k: i32) -> &'static mut f32 { rs_f32(k) }
fn ck_mut_f32(v: &&mut f32, k: i32) -> bool { ck_f32(&**v, k) }
fn ad_mut_f32(v: &&mut f32) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_bool(k: i32) -> bool { k & 1 == 1 }
fn ck_bool(v: &bool, k: i32) -> bool { *v == (k & 1 == 1) }
fn ad_bool(v: &bool) -> usize { 0 }
fn mk_mut_bool(k: i32) -> &'static mut bool { rs_bool(k) }
fn ck_mut_bool(v: &&mut bool, k: i32) -> bool { ck_bool(&**v, k) }
fn ad_mut_bool(v: &&mut bool) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_String(k: i32) -> String { TXT[k as usize].to_owned() }
fn ck_String(v: &String, k: i32) -> bool { v == TXT[k as usize] }
fn ad_String(v: &String) -> usize { 0 }
fn mk_mut_String(k: i32) -> &'static mut String { rs_String(k) }
fn ck_mut_String(v: &&mut String, k: i32) -> bool { ck_String(&**v, k) }
fn ad_mut_String(v: &&mut String) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_S2(k: i32) -> S2 { S2 { f0: mk_u8((k + 0) & 3), f1: mk_u8((k + 1) & 3) } }
fn ck_S2(v: &S2, k: i32) -> bool { ck_u8(&v.f0, (k + 0) & 3) && ck_u8(&v.f1, (k + 1) & 3) }
fn ad_S2(v: &S2) -> usize { 0 }
fn mk_mut_S2(k: i32) -> &'static mut S2 { rs_S2(k) }
fn ck_mut_S2(v: &&mut S2, k: i32) -> bool { ck_S2(&**v, k) }
fn ad_mut_S2(v: &&mut S2) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_S7(k: i32) -> S7 { S7 { f0: mk_String((k + 0) & 3) } }
fn ck_S7(v: &S7, k: i32) -> bool { ck_String(&v.f0, (k + 0) & 3) }
fn ad_S7(v: &S7) -> usize { 0 }
fn mk_mut_S7(k: i32) -> &'static mut S7 { rs_S7(k) }
fn ck_mut_S7(v: &&mut S7, k: i32) -> bool { ck_S7(&**v, k) }
fn ad_mut_S7(v: &&mut S7) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_RObj(k: i32) -> RObj { RObj::new(k) }
fn ck_RObj(v: &RObj, k: i32) -> bool { v.r_tag() == k && v.pad == TXT[k as usize] }
fn ad_RObj(v: &RObj) -> usize { 0 }
fn mk_mut_RObj(k: i32) -> &'static mut RObj { rs_RObj(k) }
fn ck_mut_RObj(v: &&mut RObj, k: i32) -> bool { ck_RObj(&**v, k) }
fn ad_mut_RObj(v: &&mut RObj) -> usize { &**v as *const _ as *const u8 as usize }
fn ck_CObj(v: &CObj, k: i32) -> bool { v.c_tag() == k }
fn ad_CObj(v: &CObj) -> usize { 0 }
fn mk_mut_CObj(k: i32) -> Pin<&'static mut CObj> { rs_CObj(k) }
fn ck_mut_CObj(v: &Pin<&mut CObj>, k: i32) -> bool { ck_CObj(&**v, k) }
fn ad_mut_CObj(v: &Pin<&mut CObj>) -> usize { &**v as *const _ as *const u8 as usize }
fn ck_CxxString(v: &CxxString, k: i32) -> bool { v.as_bytes() == TXT[k as usize].as_bytes() }
fn ad_CxxString(v: &CxxString) -> usize { 0 }
fn mk_mut_CxxString(k: i32) -> Pin<&'static mut CxxString> { rs_CxxString(k) }
fn ck_mut_CxxString(v: &Pin<&mut CxxString>, k: i32) -> bool { ck_CxxString(&**v, k) }
fn ad_mut_CxxString(v: &Pin<&mut CxxString>) -> usize { &**v as *const _ as *const u8 as usize }
fn ck_CxxVector_u8(v: &CxxVector<u8>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_CxxVector_u8(v: &CxxVector<u8>) -> usize { 0 }
fn mk_mut_CxxVector_u8(k: i32) -> Pin<&'static mut CxxVector<u8>> { rs_CxxVector_u8(k) }
fn ck_mut_CxxVector_u8(v: &Pin<&mut CxxVector<u8>>, k: i32) -> bool { ck_CxxVector_u8(&**v, k) }
fn ad_mut_CxxVector_u8(v: &Pin<&mut CxxVector<u8>>) -> usize { &**v as *const _ as *const u8 as usize }
fn ck_CxxVector_S2(v: &CxxVector<S2>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_S2(v, (k + i as i32) & 3)) }
fn ad_CxxVector_S2(v: &CxxVector<S2>) -> usize { 0 }
fn mk_mut_CxxVector_S2(k: i32) -> Pin<&'static mut CxxVector<S2>> { rs_CxxVector_S2(k) }
fn ck_mut_CxxVector_S2(v: &Pin<&mut CxxVector<S2>>, k: i32) -> bool { ck_CxxVector_S2(&**v, k) }
fn ad_mut_CxxVector_S2(v: &Pin<&mut CxxVector<S2>>) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_Vec_u8(k: i32) -> Vec<u8> { (0..k).map(|i| mk_u8((k + i) & 3)).collect() }
fn ck_Vec_u8(v: &Vec<u8>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_Vec_u8(v: &Vec<u8>) -> usize { 0 }
fn mk_mut_Vec_u8(k: i32) -> &'static mut Vec<u8> { rs_Vec_u8(k) }
fn ck_mut_Vec_u8(v: &&mut Vec<u8>, k: i32) -> bool { ck_Vec_u8(&**v, k) }
fn ad_mut_Vec_u8(v: &&mut Vec<u8>) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_Vec_String(k: i32) -> Vec<String> { (0..k).map(|i| mk_String((k + i) & 3)).collect() }
fn ck_Vec_String(v: &Vec<String>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_String(v, (k + i as i32) & 3)) }
fn ad_Vec_String(v: &Vec<String>) -> usize { 0 }
fn mk_mut_Vec_String(k: i32) -> &'static mut Vec<String> { rs_Vec_String(k) }
fn ck_mut_Vec_String(v: &&mut Vec<String>, k: i32) -> bool { ck_Vec_String(&**v, k) }
fn ad_mut_Vec_String(v: &&mut Vec<String>) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_Box_RObj(k: i32) -> Box<RObj> { Box::new(mk_RObj(k)) }
fn ck_Box_RObj(v: &Box<RObj>, k: i32) -> bool { ck_RObj(v, k) }
fn ad_Box_RObj(v: &Box<RObj>) -> usize { 0 }
fn mk_mut_Box_RObj(k: i32) -> &'static mut Box<RObj> { rs_Box_RObj(k) }
fn ck_mut_Box_RObj(v: &&mut Box<RObj>, k: i32) -> bool { ck_Box_RObj(&**v, k) }
fn ad_mut_Box_RObj(v: &&mut Box<RObj>) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_UniquePtr_CObj(k: i32) -> UniquePtr<CObj> { ffi::c_make_UniquePtr_CObj(k) }
fn ck_UniquePtr_CObj(v: &UniquePtr<CObj>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CObj(v, k) } }
fn ad_UniquePtr_CObj(v: &UniquePtr<CObj>) -> usize { 0 }
fn mk_mut_UniquePtr_CObj(k: i32) -> &'static mut UniquePtr<CObj> { rs_UniquePtr_CObj(k) }
fn ck_mut_UniquePtr_CObj(v: &&mut UniquePtr<CObj>, k: i32) -> bool { ck_UniquePtr_CObj(&**v, k) }
fn ad_mut_UniquePtr_CObj(v: &&mut UniquePtr<CObj>) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_SharedPtr_CObj(k: i32) -> SharedPtr<CObj> { ffi::c_make_SharedPtr_CObj(k) }
fn ck_SharedPtr_CObj(v: &SharedPtr<CObj>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CObj(v, k) } }
fn ad_SharedPtr_CObj(v: &SharedPtr<CObj>) -> usize { 0 }
fn mk_mut_SharedPtr_CObj(k: i32) -> &'static mut SharedPtr<CObj> { rs_SharedPtr_CObj(k) }
fn ck_mut_SharedPtr_CObj(v: &&mut SharedPtr<CObj>, k: i32) -> bool { ck_SharedPtr_CObj(&**v, k) }
fn ad_mut_SharedPtr_CObj(v: &&mut SharedPtr<CObj>) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_Ei32(k: i32) -> Ei32 { [Ei32::V0, Ei32::V1, Ei32::V2, Ei32::V3][k as usize] }
fn ck_Ei32(v: &Ei32, k: i32) -> bool { *v == mk_Ei32(k) && v.repr == [-1, 0, 2147483647, -2147483648][k as usize] }
fn ad_Ei32(v: &Ei32) -> usize { 0 }
fn mk_mut_Ei32(k: i32) -> &'static mut Ei32 { rs_Ei32(k) }
fn ck_mut_Ei32(v: &&mut Ei32, k: i32) -> bool { ck_Ei32(&**v, k) }
fn ad_mut_Ei32(v: &&mut Ei32) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_f64(k: i32) -> f64 { f64::from_bits([0x8000000000000000, 0xfff0000000000000, 0x3ff8000000000000, 0x7ff8000000000123][k as usize]) }
fn ck_f64(v: &f64, k: i32) -> bool { v.to_bits() == mk_f64(k).to_bits() }
fn ad_f64(v: &f64) -> usize { 0 }
fn mk_TrivB(k: i32) -> TrivB { TrivB { f0: mk_f64((k + 0) & 3), f1: mk_f64((k + 1) & 3) } }
fn ck_TrivB(v: &TrivB, k: i32) -> bool { ck_f64(&v.f0, (k + 0) & 3) && ck_f64(&v.f1, (k + 1) & 3) }
fn ad_TrivB(v: &TrivB) -> usize { 0 }
fn mk_mut_TrivB(k: i32) -> &'static mut TrivB { rs_TrivB(k) }
fn ck_mut_TrivB(v: &&mut TrivB, k: i32) -> bool { ck_TrivB(&**v, k) }
fn ad_mut_TrivB(v: &&mut TrivB) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_arr3_S2(k: i32) -> [S2; 3] { std::array::from_fn(|i| mk_S2((k + i as i32) & 3)) }
fn ck_arr3_S2(v: &[S2; 3], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_S2(v, (k + i as i32) & 3)) }
fn ad_arr3_S2(v: &[S2; 3]) -> usize { 0 }
fn mk_mut_arr3_S2(k: i32) -> &'static mut [S2; 3] { rs_arr3_S2(k) }
fn ck_mut_arr3_S2(v: &&mut [S2; 3], k: i32) -> bool { ck_arr3_S2(&**v, k) }
fn ad_mut_arr3_S2(v: &&mut [S2; 3]) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_sl_u8(k: i32) -> &'static [u8] { &rs_sl_u8(k)[..k as usize] }
fn ck_sl_u8(v: &&[u8], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_sl_u8(v: &&[u8]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_u16(k: i32) -> u16 { [0, 1, 32768, 65535][k as usize] }
fn ck_u16(v: &u16, k: i32) -> bool { *v == mk_u16(k) }
fn ad_u16(v: &u16) -> usize { 0 }
fn mk_sl_u16(k: i32) -> &'static [u16] { &rs_sl_u16(k)[..k as usize] }
fn ck_sl_u16(v: &&[u16], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u16(v, (k + i as i32) & 3)) }
fn ad_sl_u16(v: &&[u16]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_i32(k: i32) -> i32 { [0, 1, -2147483648, 2147483647][k as usize] }
fn ck_i32(v: &i32, k: i32) -> bool { *v == mk_i32(k) }
fn ad_i32(v: &i32) -> usize { 0 }
fn mk_sl_i32(k: i32) -> &'static [i32] { &rs_sl_i32(k)[..k as usize] }
fn ck_sl_i32(v: &&[i32], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_i32(v, (k + i as i32) & 3)) }
fn ad_sl_i32(v: &&[i32]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_f64(k: i32) -> &'static [f64] { &rs_sl_f64(k)[..k as usize] }
fn ck_sl_f64(v: &&[f64], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_f64(v, (k + i as i32) & 3)) }
fn ad_sl_f64(v: &&[f64]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_bool(k: i32) -> &'static [bool] { &rs_sl_bool(k)[..k as usize] }
fn ck_sl_bool(v: &&[bool], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_bool(v, (k + i as i32) & 3)) }
fn ad_sl_bool(v: &&[bool]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_usize(k: i32) -> usize { [0, 1, 9223372036854775808, 18446744073709551615][k as usize] }
fn ck_usize(v: &usize, k: i32) -> bool { *v == mk_usize(k) }
fn ad_usize(v: &usize) -> usize { 0 }
fn mk_sl_usize(k: i32) -> &'static [usize] { &rs_sl_usize(k)[..k as usize] }
fn ck_sl_usize(v: &&[usize], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_usize(v, (k + i as i32) & 3)) }
fn ad_sl_usize(v: &&[usize]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_c_char(k: i32) -> c_char { [0u8, b'a', 0x80, 0xff][k as usize] as c_char }
fn ck_c_char(v: &c_char, k: i32) -> bool { *v == mk_c_char(k) }
fn ad_c_char(v: &c_char) -> usize { 0 }
fn mk_sl_c_char(k: i32) -> &'static [c_char] { &rs_sl_c_char(k)[..k as usize] }
fn ck_sl_c_char(v: &&[c_char], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_c_char(v, (k + i as i32) & 3)) }
fn ad_sl_c_char(v: &&[c_char]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_String(k: i32) -> &'static [String] { &rs_sl_String(k)[..k as usize] }
fn ck_sl_String(v: &&[String], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_String(v, (k + i as i32) & 3)) }
fn ad_sl_String(v: &&[String]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_S2(k: i32) -> &'static [S2] { &rs_sl_S2(k)[..k as usize] }
fn ck_sl_S2(v: &&[S2], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_S2(v, (k + i as i32) & 3)) }
fn ad_sl_S2(v: &&[S2]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_S7(k: i32) -> &'static [S7] { &rs_sl_S7(k)[..k as usize] }
fn ck_sl_S7(v: &&[S7], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_S7(v, (k + i as i32) & 3)) }
fn ad_sl_S7(v: &&[S7]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_Ei8(k: i32) -> Ei8 { [Ei8::V0, Ei8::V1, Ei8::V2, Ei8::V3][k as usize] }
fn ck_Ei8(v: &Ei8, k: i32) -> bool { *v == mk_Ei8(k) && v.repr == [0, 1, -128, 127][k as usize] }
fn ad_Ei8(v: &Ei8) -> usize { 0 }
fn mk_sl_Ei8(k: i32) -> &'static [Ei8] { &rs_sl_Ei8(k)[..k as usize] }
fn ck_sl_Ei8(v: &&[Ei8], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_Ei8(v, (k + i as i32) & 3)) }
fn ad_sl_Ei8(v: &&[Ei8]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_TrivA(k: i32) -> TrivA { TrivA { f0: mk_i32((k + 0) & 3) } }
fn ck_TrivA(v: &TrivA, k: i32) -> bool { ck_i32(&v.f0, (k + 0) & 3) }
fn ad_TrivA(v: &TrivA) -> usize { 0 }
fn mk_sl_TrivA(k: i32) -> &'static [TrivA] { &rs_sl_TrivA(k)[..k as usize] }
fn ck_sl_TrivA(v: &&[TrivA], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_TrivA(v, (k + i as i32) & 3)) }
fn ad_sl_TrivA(v: &&[TrivA]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_RObj(k: i32) -> &'static [RObj] { &rs_sl_RObj(k)[..k as usize] }
fn ck_sl_RObj(v: &&[RObj], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_RObj(v, (k + i as i32) & 3)) }
fn ad_sl_RObj(v: &&[RObj]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_Box_RObj(k: i32) -> &'static [Box<RObj>] { &rs_sl_Box_RObj(k)[..k as usize] }
fn ck_sl_Box_RObj(v: &&[Box<RObj>], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_Box_RObj(v, (k + i as i32) & 3)) }
fn ad_sl_Box_RObj(v: &&[Box<RObj>]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_UniquePtr_CObj(k: i32) -> &'static [UniquePtr<CObj>] { &rs_sl_UniquePtr_CObj(k)[..k as usize] }
fn ck_sl_UniquePtr_CObj(v: &&[UniquePtr<CObj>], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_UniquePtr_CObj(v, (k + i as i32) & 3)) }
fn ad_sl_UniquePtr_CObj(v: &&[UniquePtr<CObj>]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_Vec_u8(k: i32) -> &'static [Vec<u8>] { &rs_sl_Vec_u8(k)[..k as usize] }
fn ck_sl_Vec_u8(v: &&[Vec<u8>], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_Vec_u8(v, (k + i as i32) & 3)) }
fn ad_sl_Vec_u8(v: &&[Vec<u8>]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_f32(k: i32) -> &'static [f32] { &rs_sl_f32(k)[..k as usize] }
fn ck_sl_f32(v: &&[f32], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_f32(v, (k + i as i32) & 3)) }
fn ad_sl_f32(v: &&[f32]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_isize(k: i32) -> isize { [0, 1, -9223372036854775808, 9223372036854775807][k as usize] }
fn ck_isize(v: &isize, k: i32) -> bool { *v == mk_isize(k) }
fn ad_isize(v: &isize) -> usize { 0 }
fn mk_sl_isize(k: i32) -> &'static [isize] { &rs_sl_isize(k)[..k as usize] }
fn ck_sl_isize(v: &&[isize], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_isize(v, (k + i as i32) & 3)) }
fn ad_sl_isize(v: &&[isize]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_sl_arr4_u8(k: i32) -> &'static [[u8; 4]] { &rs_sl_arr4_u8(k)[..k as usize] }
fn ck_sl_arr4_u8(v: &&[[u8; 4]], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_arr4_u8(v, (k + i as i32) & 3)) }
fn ad_sl_arr4_u8(v: &&[[u8; 4]]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_slm_u8(k: i32) -> &'static mut [u8] { &mut rs_sl_u8(k)[..k as usize] }
fn ck_slm_u8(v: &&mut [u8], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_slm_u8(v: &&mut [u8]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_slm_i64(k: i32) -> &'static mut [i64] { &mut rs_sl_i64(k)[..k as usize] }
fn ck_slm_i64(v: &&mut [i64], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_i64(v, (k + i as i32) & 3)) }
fn ad_slm_i64(v: &&mut [i64]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_slm_f32(k: i32) -> &'static mut [f32] { &mut rs_sl_f32(k)[..k as usize] }
fn ck_slm_f32(v: &&mut [f32], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_f32(v, (k + i as i32) & 3)) }
fn ad_slm_f32(v: &&mut [f32]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_slm_String(k: i32) -> &'static mut [String] { &mut rs_sl_String(k)[..k as usize] }
fn ck_slm_String(v: &&mut [String], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_String(v, (k + i as i32) & 3)) }
fn ad_slm_String(v: &&mut [String]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_slm_S7(k: i32) -> &'static mut [S7] { &mut rs_sl_S7(k)[..k as usize] }
fn ck_slm_S7(v: &&mut [S7], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_S7(v, (k + i as i32) & 3)) }
fn ad_slm_S7(v: &&mut [S7]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_slm_RObj(k: i32) -> &'static mut [RObj] { &mut rs_sl_RObj(k)[..k as usize] }
fn ck_slm_RObj(v: &&mut [RObj], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_RObj(v, (k + i as i32) & 3)) }
fn ad_slm_RObj(v: &&mut [RObj]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_slm_c_char(k: i32) -> &'static mut [c_char] { &mut rs_sl_c_char(k)[..k as usize] }
fn ck_slm_c_char(v: &&mut [c_char], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_c_char(v, (k + i as i32) & 3)) }
fn ad_slm_c_char(v: &&mut [c_char]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_Eu16(k: i32) -> Eu16 { [Eu16::V0, Eu16::V1, Eu16::V2, Eu16::V3][k as usize] }
fn ck_Eu16(v: &Eu16, k: i32) -> bool { *v == mk_Eu16(k) && v.repr == [0, 1, 32768, 65535][k as usize] }
fn ad_Eu16(v: &Eu16) -> usize { 0 }
fn mk_slm_Eu16(k: i32) -> &'static mut [Eu16] { &mut rs_sl_Eu16(k)[..k as usize] }
fn ck_slm_Eu16(v: &&mut [Eu16], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_Eu16(v, (k + i as i32) & 3)) }
fn ad_slm_Eu16(v: &&mut [Eu16]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_u64(k: i32) -> u64 { [0, 1, 9223372036854775808, 18446744073709551615][k as usize] }
fn ck_u64(v: &u64, k: i32) -> bool { *v == mk_u64(k) }
fn ad_u64(v: &u64) -> usize { 0 }
fn mk_TrivC(k: i32) -> TrivC { TrivC { f0: mk_u64((k + 0) & 3), f1: mk_u8((k + 1) & 3), f2: mk_u64((k + 2) & 3), f3: mk_u16((k + 3) & 3) } }
fn ck_TrivC(v: &TrivC, k: i32) -> bool { ck_u64(&v.f0, (k + 0) & 3) && ck_u8(&v.f1, (k + 1) & 3) && ck_u64(&v.f2, (k + 2) & 3) && ck_u16(&v.f3, (k + 3) & 3) }
fn ad_TrivC(v: &TrivC) -> usize { 0 }
fn mk_slm_TrivC(k: i32) -> &'static mut [TrivC] { &mut rs_sl_TrivC(k)[..k as usize] }
fn ck_slm_TrivC(v: &&mut [TrivC], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_TrivC(v, (k + i as i32) & 3)) }
fn ad_slm_TrivC(v: &&mut [TrivC]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_slm_Box_RObj(k: i32) -> &'static mut [Box<RObj>] { &mut rs_sl_Box_RObj(k)[..k as usize] }
fn ck_slm_Box_RObj(v: &&mut [Box<RObj>], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_Box_RObj(v, (k + i as i32) & 3)) }
fn ad_slm_Box_RObj(v: &&mut [Box<RObj>]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_ptrconst_u8(k: i32) -> *const u8 { if k == 3 { std::ptr::null_mut() } else { rs_u8(k) as *const _ as *mut u8 } }
fn ck_ptrconst_u8(v: &*const u8, k: i32) -> bool { if k == 3 { v.is_null() } else { ck_u8(unsafe { &**v }, k) } }
fn ad_ptrconst_u8(v: &*const u8) -> usize { *v as *const u8 as usize }
fn mk_ptrmut_u64(k: i32) -> *mut u64 { if k == 3 { std::ptr::null_mut() } else { rs_u64(k) as *const _ as *mut u64 } }
fn ck_ptrmut_u64(v: &*mut u64, k: i32) -> bool { if k == 3 { v.is_null() } else { ck_u64(unsafe { &**v }, k) } }
fn ad_ptrmut_u64(v: &*mut u64) -> usize { *v as *const u8 as usize }
fn mk_ptrconst_S2(k: i32) -> *const S2 { if k == 3 { std::ptr::null_mut() } else { rs_S2(k) as *const _ as *mut S2 } }
fn ck_ptrconst_S2(v: &*const S2, k: i32) -> bool { if k == 3 { v.is_null() } else { ck_S2(unsafe { &**v }, k) } }
fn ad_ptrconst_S2(v: &*const S2) -> usize { *v as *const u8 as usize }
fn mk_ptrmut_S7(k: i32) -> *mut S7 { if k == 3 { std::ptr::null_mut() } else { rs_S7(k) as *const _ as *mut S7 } }
fn ck_ptrmut_S7(v: &*mut S7, k: i32) -> bool { if k == 3 { v.is_null() } else { ck_S7(unsafe { &**v }, k) } }
fn ad_ptrmut_S7(v: &*mut S7) -> usize { *v as *const u8 as usize }
fn mk_ptrmut_CObj(k: i32) -> *mut CObj { if k == 3 { std::ptr::null_mut() } else { rs_CObj(k).as_ref().get_ref() as *const _ as *mut CObj } }
fn ck_ptrmut_CObj(v: &*mut CObj, k: i32) -> bool { if k == 3 { v.is_null() } else { ck_CObj(unsafe { &**v }, k) } }
fn ad_ptrmut_CObj(v: &*mut CObj) -> usize { *v as *const u8 as usize }
fn mk_ptrconst_CObj(k: i32) -> *const CObj { if k == 3 { std::ptr::null_mut() } else { rs_CObj(k).as_ref().get_ref() as *const _ as *mut CObj } }
fn ck_ptrconst_CObj(v: &*const CObj, k: i32) -> bool { if k == 3 { v.is_null() } else { ck_CObj(unsafe { &**v }, k) } }
fn ad_ptrconst_CObj(v: &*const CObj) -> usize { *v as *const u8 as usize }
fn mk_ptrconst_RObj(k: i32) -> *const RObj { if k == 3 { std::ptr::null_mut() } else { rs_RObj(k) as *const _ as *mut RObj } }
fn ck_ptrconst_RObj(v: &*const RObj, k: i32) -> bool { if k == 3 { v.is_null() } else { ck_RObj(unsafe { &**v }, k) } }
fn ad_ptrconst_RObj(v: &*const RObj) -> usize { *v as *const u8 as usize }
fn mk_ptrmut_RObj(k: i32) -> *mut RObj { if k == 3 { std::ptr::null_mut() } else { rs_RObj(k) as *const _ as *mut RObj } }
fn ck_ptrmut_RObj(v: &*mut RObj, k: i32) -> bool { if k == 3 { v.is_null() } else { ck_RObj(unsafe { &**v }, k) } }
fn ad_ptrmut_RObj(v: &*mut RObj) -> usize { *v as *const u8 as usize }
fn mk_ptrconst_CxxString(k: i32) -> *const CxxString { if k == 3 { std::ptr::null_mut() } else { rs_CxxString(k).as_ref().get_ref() as *const _ as *mut CxxString } }
fn ck_ptrconst_CxxString(v: &*const CxxString, k: i32) -> bool { if k == 3 { v.is_null() } else { ck_CxxString(unsafe { &**v }, k) } }
fn ad_ptrconst_CxxString(v: &*const CxxString) -> usize { *v as *const u8 as usize }
static mut ST_arr4_u8: [Option<[u8; 4]>; 4] = [None, None, None, None];
fn rs_arr4_u8(k: i32) -> &'static mut [u8; 4] { unsafe { ST_arr4_u8[k as usize] = Some(mk_arr4_u8(k)); ST_arr4_u8[k as usize].as_mut().unwrap() } }
fn rp_arr4_u8(k: i32) -> &'static [u8; 4] { unsafe { &*ST_arr4_u8[k as usize].as_ref().unwrap() } }
static mut ST_u8: [Option<u8>; 4] = [None, None, None, None];
fn rs_u8(k: i32) -> &'static mut u8 { unsafe { ST_u8[k as usize] = Some(mk_u8(k)); ST_u8[k as usize].as_mut().unwrap() } }
fn rp_u8(k: i32) -> &'static u8 { unsafe { &*ST_u8[k as usize].as_ref().unwrap() } }
static mut ST_i64: [Option<i64>; 4] = [None, None, None, None];
fn rs_i64(k: i32) -> &'static mut i64 { unsafe { ST_i64[k as usize] = Some(mk_i64(k)); ST_i64[k as usize].as_mut().unwrap() } }
fn rp_i64(k: i32) -> &'static i64 { unsafe { &*ST_i64[k as usize].as_ref().unwrap() } }
static mut ST_f32: [Option<f32>; 4] = [None, None, None, None];
fn rs_f32(k: i32) -> &'static mut f32 { unsafe { ST_f32[k as usize] = Some(mk_f32(k)); ST_f32[k as usize].as_mut().unwrap() } }
fn rp_f32(k: i32) -> &'static f32 { unsafe { &*ST_f32[k as usize].as_ref().unwrap() } }
static mut ST_bool: [Option<bool>; 4] = [None, None, None, None];
fn rs_bool(k: i32) -> &'static mut bool { unsafe { ST_bool[k as usize] = Some(mk_bool(k)); ST_bool[k as usize].as_mut().unwrap() } }
fn rp_bool(k: i32) -> &'static bool { unsafe { &*ST_bool[k as usize].as_ref().unwrap() } }
static mut ST_String: [Option<String>; 4] = [None, None, None, None];
fn rs_String(k: i32) -> &'static mut String { unsafe { ST_String[k as usize] = Some(mk_String(k)); ST_String[k as usize].as_mut().unwrap() } }
fn rp_String(k: i32) -> &'static String { unsafe { &*ST_String[k as usize].as_ref().unwrap() } }
static mut ST_S2: [Option<S2>; 4] = [None, None, None, None];
fn rs_S2(k: i32) -> &'static mut S2 { unsafe { ST_S2[k as usize] = Some(mk_S2(k)); ST_S2[k as usize].as_mut().unwrap() } }
fn rp_S2(k: i32) -> &'static S2 { unsafe { &*ST_S2[k as usize].as_ref().unwrap() } }
static mut ST_S7: [Option<S7>; 4] = [None, None, None, None];
fn rs_S7(k: i32) -> &'static mut S7 { unsafe { ST_S7[k as usize] = Some(mk_S7(k)); ST_S7[k as usize].as_mut().unwrap() } }
fn rp_S7(k: i32) -> &'static S7 { unsafe { &*ST_S7[k as usize].as_ref().unwrap() } }
static mut ST_RObj: [Option<RObj>; 4] = [None, None, None, None];
fn rs_RObj(k: i32) -> &'static mut RObj { unsafe { ST_RObj[k as usize] = Some(mk_RObj(k)); ST_RObj[k as usize].as_mut().unwrap() } }
fn rp_RObj(k: i32) -> &'static RObj { unsafe { &*ST_RObj[k as usize].as_ref().unwrap() } }
static mut ST_CObj: [Option<UniquePtr<CObj>>; 4] = [None, None, None, None];
fn rs_CObj(k: i32) -> Pin<&'static mut CObj> { unsafe { ST_CObj[k as usize] = Some(ffi::c_store_CObj(k)); ST_CObj[k as usize].as_mut().unwrap().pin_mut() } }
fn rp_CObj(k: i32) -> &'static CObj { unsafe { &*ST_CObj[k as usize].as_ref().unwrap() } }
static mut ST_CxxString: [Option<UniquePtr<CxxString>>; 4] = [None, None, None, None];
fn rs_CxxString(k: i32) -> Pin<&'static mut CxxString> { unsafe { ST_CxxString[k as usize] = Some(ffi::c_store_CxxString(k)); ST_CxxString[k as usize].as_mut().unwrap().pin_mut() } }
fn rp_CxxString(k: i32) -> &'static CxxString { unsafe { &*ST_CxxString[k as usize].as_ref().unwrap() } }
static mut ST_CxxVector_u8: [Option<UniquePtr<CxxVector<u8>>>; 4] = [None, None, None, None];
fn rs_CxxVector_u8(k: i32) -> Pin<&'static mut CxxVector<u8>> { unsafe { ST_CxxVector_u8[k as usize] = Some(ffi::c_store_CxxVector_u8(k)); ST_CxxVector_u8[k as usize].as_mut().unwrap().pin_mut() } }
fn rp_CxxVector_u8(k: i32) -> &'static CxxVector<u8> { unsafe { &*ST_CxxVector_u8[k as usize].as_ref().unwrap() } }
static mut ST_CxxVector_S2: [Option<UniquePtr<CxxVector<S2>>>; 4] = [None, None, None, None];
fn rs_CxxVector_S2(k: i32) -> Pin<&'static mut CxxVector<S2>> { unsafe { ST_CxxVector_S2[k as usize] = Some(ffi::c_store_CxxVector_S2(k)); ST_CxxVector_S2[k as usize].as_mut().unwrap().pin_mut() } }
fn rp_CxxVector_S2(k: i32) -> &'static CxxVector<S2> { unsafe { &*ST_CxxVector_S2[k as usize].as_ref().unwrap() } }
static mut ST_Vec_u8: [Option<Vec<u8>>; 4] = [None, None, None, None];
fn rs_Vec_u8(k: i32) -> &'static mut Vec<u8> { unsafe { ST_Vec_u8[k as usize] = Some(mk_Vec_u8(k)); ST_Vec_u8[k as usize].as_mut().unwrap() } }
fn rp_Vec_u8(k: i32) -> &'static Vec<u8> { unsafe { &*ST_Vec_u8[k as usize].as_ref().unwrap() } }
static mut ST_Vec_String: [Option<Vec<String>>; 4] = [None, None, None, None];
fn rs_Vec_String(k: i32) -> &'static mut Vec<String> { unsafe { ST_Vec_String[k as usize] = Some(mk_Vec_String(k)); ST_Vec_String[k as usize].as_mut().unwrap() } }
fn rp_Vec_String(k: i32) -> &'static Vec<String> { unsafe { &*ST_Vec_String[k as usize].as_ref().unwrap() } }
static mut ST_Box_RObj: [Option<Box<RObj>>; 4] = [None, None, None, None];
fn rs_Box_RObj(k: i32) -> &'static mut Box<RObj> { unsafe { ST_Box_RObj[k as usize] = Some(mk_Box_RObj(k)); ST_Box_RObj[k as usize].as_mut().unwrap() } }
fn rp_Box_RObj(k: i32) -> &'static Box<RObj> { unsafe { &*ST_Box_RObj[k as usize].as_ref().unwrap() } }
static mut ST_UniquePtr_CObj: [Option<UniquePtr<CObj>>; 4] = [None, None, None, None];
fn rs_UniquePtr_CObj(k: i32) -> &'static mut UniquePtr<CObj> { unsafe { ST_UniquePtr_CObj[k as usize] = Some(mk_UniquePtr_CObj(k)); ST_UniquePtr_CObj[k as usize].as_mut().unwrap() } }
fn rp_UniquePtr_CObj(k: i32) -> &'static UniquePtr<CObj> { unsafe { &*ST_UniquePtr_CObj[k as usize].as_ref().unwrap() } }
static mut ST_SharedPtr_CObj: [Option<SharedPtr<CObj>>; 4] = [None, None, None, None];
fn rs_SharedPtr_CObj(k: i32) -> &'static mut SharedPtr<CObj> { unsafe { ST_SharedPtr_CObj[k as usize] = Some(mk_SharedPtr_CObj(k)); ST_SharedPtr_CObj[k as usize].as_mut().unwrap() } }
fn rp_SharedPtr_CObj(k: i32) -> &'static SharedPtr<CObj> { unsafe { &*ST_SharedPtr_CObj[k as usize].as_ref().unwrap() } }
static mut ST_Ei32: [Option<Ei32>; 4] = [None, None, None, None];
fn rs_Ei32(k: i32) -> &'static mut Ei32 { unsafe { ST_Ei32[k as usize] = Some(mk_Ei32(k)); ST_Ei32[k as usize].as_mut().unwrap() } }
fn rp_Ei32(k: i32) -> &'static Ei32 { unsafe { &*ST_Ei32[k as usize].as_ref().unwrap() } }
static mut ST_TrivB: [Option<TrivB>; 4] = [None, None, None, None];
fn rs_TrivB(k: i32) -> &'static mut TrivB { unsafe { ST_TrivB[k as usize] = Some(mk_TrivB(k)); ST_TrivB[k as usize].as_mut().unwrap() } }
fn rp_TrivB(k: i32) -> &'static TrivB { unsafe { &*ST_TrivB[k as usize].as_ref().unwrap() } }
static mut ST_arr3_S2: [Option<[S2; 3]>; 4] = [None, None, None, None];
fn rs_arr3_S2(k: i32) -> &'static mut [S2; 3] { unsafe { ST_arr3_S2[k as usize] = Some(mk_arr3_S2(k)); ST_arr3_S2[k as usize].as_mut().unwrap() } }
fn rp_arr3_S2(k: i32) -> &'static [S2; 3] { unsafe { &*ST_arr3_S2[k as usize].as_ref().unwrap() } }
static mut ST_u64: [Option<u64>; 4] = [None, None, None, None];
fn rs_u64(k: i32) -> &'static mut u64 { unsafe { ST_u64[k as usize] = Some(mk_u64(k)); ST_u64[k as usize].as_mut().unwrap() } }
fn rp_u64(k: i32) -> &'static u64 { unsafe { &*ST_u64[k as usize].as_ref().unwrap() } }
static mut SL_u8: [Option<Vec<u8>>; 4] = [None, None, None, None];
fn rs_sl_u8(k: i32) -> &'static mut Vec<u8> { unsafe { SL_u8[k as usize] = Some((0..4).map(|i| mk_u8((k + i) & 3)).collect()); SL_u8[k as usize].as_mut().unwrap() } }
fn rp_sl_u8(k: i32) -> &'static mut Vec<u8> { unsafe { SL_u8[k as usize].as_mut().unwrap() } }
static mut SL_u16: [Option<Vec<u16>>; 4] = [None, None, None, None];
fn rs_sl_u16(k: i32) -> &'static mut Vec<u16> { unsafe { SL_u16[k as usize] = Some((0..4).map(|i| mk_u16((k + i) & 3)).collect()); SL_u16[k as usize].as_mut().unwrap() } }
fn rp_sl_u16(k: i32) -> &'static mut Vec<u16> { unsafe { SL_u16[k as usize].as_mut().unwrap() } }
static mut SL_i32: [Option<Vec<i32>>; 4] = [None, None, None, None];
fn rs_sl_i32(k: i32) -> &'static mut Vec<i32> { unsafe { SL_i32[k as usize] = Some((0..4).map(|i| mk_i32((k + i) & 3)).collect()); SL_i32[k as usize].as_mut().unwrap() } }
fn rp_sl_i32(k: i32) -> &'static mut Vec<i32> { unsafe { SL_i32[k as usize].as_mut().unwrap() } }
static mut SL_f64: [Option<Vec<f64>>; 4] = [None, None, None, None];
fn rs_sl_f64(k: i32) -> &'static mut Vec<f64> { unsafe { SL_f64[k as usize] = Some((0..4).map(|i| mk_f64((k + i) & 3)).collect()); SL_f64[k as usize].as_mut().unwrap() } }
fn rp_sl_f64(k: i32) -> &'static mut Vec<f64> { unsafe { SL_f64[k as usize].as_mut().unwrap() } }
static mut SL_bool: [Option<Vec<bool>>; 4] = [None, None, None, None];
fn rs_sl_bool(k: i32) -> &'static mut Vec<bool> { unsafe { SL_bool[k as usize] = Some((0..4).map(|i| mk_bool((k + i) & 3)).collect()); SL_bool[k as usize].as_mut().unwrap() } }
fn rp_sl_bool(k: i32) -> &'static mut Vec<bool> { unsafe { SL_bool[k as usize].as_mut().unwrap() } }
static mut SL_usize: [Option<Vec<usize>>; 4] = [None, None, None, None];
fn rs_sl_usize(k: i32) -> &'static mut Vec<usize> { unsafe { SL_usize[k as usize] = Some((0..4).map(|i| mk_usize((k + i) & 3)).collect()); SL_usize[k as usize].as_mut().unwrap() } }
fn rp_sl_usize(k: i32) -> &'static mut Vec<usize> { unsafe { SL_usize[k as usize].as_mut().unwrap() } }
static mut SL_c_char: [Option<Vec<c_char>>; 4] = [None, None, None, None];
fn rs_sl_c_char(k: i32) -> &'static mut Vec<c_char> { unsafe { SL_c_char[k as usize] = Some((0..4).map(|i| mk_c_char((k + i) & 3)).collect()); SL_c_char[k as usize].as_mut().unwrap() } }
fn rp_sl_c_char(k: i32) -> &'static mut Vec<c_char> { unsafe { SL_c_char[k as usize].as_mut().unwrap() } }
static mut SL_String: [Option<Vec<String>>; 4] = [None, None, None, None];
fn rs_sl_String(k: i32) -> &'static mut Vec<String> { unsafe { SL_String[k as usize] = Some((0..4).map(|i| mk_String((k + i) & 3)).collect()); SL_String[k as usize].as_mut().unwrap() } }
fn rp_sl_String(k: i32) -> &'static mut Vec<String> { unsafe { SL_String[k as usize].as_mut().unwrap() } }
static mut SL_S2: [Option<Vec<S2>>; 4] = [None, None, None, None];
fn rs_sl_S2(k: i32) -> &'static mut Vec<S2> { unsafe { SL_S2[k as usize] = Some((0..4).map(|i| mk_S2((k + i) & 3)).collect()); SL_S2[k as usize].as_mut().unwrap() } }
fn rp_sl_S2(k: i32) -> &'static mut Vec<S2> { unsafe { SL_S2[k as usize].as_mut().unwrap() } }
static mut SL_S7: [Option<Vec<S7>>; 4] = [None, None, None, None];
fn rs_sl_S7(k: i32) -> &'static mut Vec<S7> { unsafe { SL_S7[k as usize] = Some((0..4).map(|i| mk_S7((k + i) & 3)).collect()); SL_S7[k as usize].as_mut().unwrap() } }
fn rp_sl_S7(k: i32) -> &'static mut Vec<S7> { unsafe { SL_S7[k as usize].as_mut().unwrap() } }
static mut SL_Ei8: [Option<Vec<Ei8>>; 4] = [None, None, None, None];
fn rs_sl_Ei8(k: i32) -> &'static mut Vec<Ei8> { unsafe { SL_Ei8[k as usize] = Some((0..4).map(|i| mk_Ei8((k + i) & 3)).collect()); SL_Ei8[k as usize].as_mut().unwrap() } }
fn rp_sl_Ei8(k: i32) -> &'static mut Vec<Ei8> { unsafe { SL_Ei8[k as usize].as_mut().unwrap() } }
static mut SL_TrivA: [Option<Vec<TrivA>>; 4] = [None, None, None, None];
fn rs_sl_TrivA(k: i32) -> &'static mut Vec<TrivA> { unsafe { SL_TrivA[k as usize] = Some((0..4).map(|i| mk_TrivA((k + i) & 3)).collect()); SL_TrivA[k as usize].as_mut().unwrap() } }
fn rp_sl_TrivA(k: i32) -> &'static mut Vec<TrivA> { unsafe { SL_TrivA[k as usize].as_mut().unwrap() } }
static mut SL_RObj: [Option<Vec<RObj>>; 4] = [None, None, None, None];
fn rs_sl_RObj(k: i32) -> &'static mut Vec<RObj> { unsafe { SL_RObj[k as usize] = Some((0..4).map(|i| mk_RObj((k + i) & 3)).collect()); SL_RObj[k as usize].as_mut().unwrap() } }
fn rp_sl_RObj(k: i32) -> &'static mut Vec<RObj> { unsafe { SL_RObj[k as usize].as_mut().unwrap() } }
fn r_slice_RObj(k: i32) -> Vec<RObj> { (0..4).map(|i| mk_RObj((k + i) & 3)).collect() }
static mut SL_Box_RObj: [Option<Vec<Box<RObj>>>; 4] = [None, None, None, None];
fn rs_sl_Box_RObj(k: i32) -> &'static mut Vec<Box<RObj>> { unsafe { SL_Box_RObj[k as usize] = Some((0..4).map(|i| mk_Box_RObj((k + i) & 3)).collect()); SL_Box_RObj[k as usize].as_mut().unwrap() } }
fn rp_sl_Box_RObj(k: i32) -> &'static mut Vec<Box<RObj>> { unsafe { SL_Box_RObj[k as usize].as_mut().unwrap() } }
static mut SL_UniquePtr_CObj: [Option<Vec<UniquePtr<CObj>>>; 4] = [None, None, None, None];
fn rs_sl_UniquePtr_CObj(k: i32) -> &'static mut Vec<UniquePtr<CObj>> { unsafe { SL_UniquePtr_CObj[k as usize] = Some((0..4).map(|i| mk_UniquePtr_CObj((k + i) & 3)).collect()); SL_UniquePtr_CObj[k as usize].as_mut().unwrap() } }
fn rp_sl_UniquePtr_CObj(k: i32) -> &'static mut Vec<UniquePtr<CObj>> { unsafe { SL_UniquePtr_CObj[k as usize].as_mut().unwrap() } }
static mut SL_Vec_u8: [Option<Vec<Vec<u8>>>; 4] = [None, None, None, None];
fn rs_sl_Vec_u8(k: i32) -> &'static mut Vec<Vec<u8>> { unsafe { SL_Vec_u8[k as usize] = Some((0..4).map(|i| mk_Vec_u8((k + i) & 3)).collect()); SL_Vec_u8[k as usize].as_mut().unwrap() } }
fn rp_sl_Vec_u8(k: i32) -> &'static mut Vec<Vec<u8>> { unsafe { SL_Vec_u8[k as usize].as_mut().unwrap() } }
static mut SL_f32: [Option<Vec<f32>>; 4] = [None, None, None, None];
fn rs_sl_f32(k: i32) -> &'static mut Vec<f32> { unsafe { SL_f32[k as usize] = Some((0..4).map(|i| mk_f32((k + i) & 3)).collect()); SL_f32[k as usize].as_mut().unwrap() } }
fn rp_sl_f32(k: i32) -> &'static mut Vec<f32> { unsafe { SL_f32[k as usize].as_mut().unwrap() } }
static mut SL_isize: [Option<Vec<isize>>; 4] = [None, None, None, None];
fn rs_sl_isize(k: i32) -> &'static mut Vec<isize> { unsafe { SL_isize[k as usize] = Some((0..4).map(|i| mk_isize((k + i) & 3)).collect()); SL_isize[k as usize].as_mut().unwrap() } }
fn rp_sl_isize(k: i32) -> &'static mut Vec<isize> { unsafe { SL_isize[k as usize].as_mut().unwrap() } }
static mut SL_arr4_u8: [Option<Vec<[u8; 4]>>; 4] = [None, None, None, None];
fn rs_sl_arr4_u8(k: i32) -> &'static mut Vec<[u8; 4]> { unsafe { SL_arr4_u8[k as usize] = Some((0..4).map(|i| mk_arr4_u8((k + i) & 3)).collect()); SL_arr4_u8[k as usize].as_mut().unwrap() } }
fn rp_sl_arr4_u8(k: i32) -> &'static mut Vec<[u8; 4]> { unsafe { SL_arr4_u8[k as usize].as_mut().unwrap() } }
static mut SL_i64: [Option<Vec<i64>>; 4] = [None, None, None, None];
fn rs_sl_i64(k: i32) -> &'static mut Vec<i64> { unsafe { SL_i64[k as usize] = Some((0..4).map(|i| mk_i64((k + i) & 3)).collect()); SL_i64[k as usize].as_mut().unwrap() } }
fn rp_sl_i64(k: i32) -> &'static mut Vec<i64> { unsafe { SL_i64[k as usize].as_mut().unwrap() } }
static mut SL_Eu16: [Option<Vec<Eu16>>; 4] = [None, None, None, None];
fn rs_sl_Eu16(k: i32) -> &'static mut Vec<Eu16> { unsafe { SL_Eu16[k as usize] = Some((0..4).map(|i| mk_Eu16((k + i) & 3)).collect()); SL_Eu16[k as usize].as_mut().unwrap() } }
fn rp_sl_Eu16(k: i32) -> &'static mut Vec<Eu16> { unsafe { SL_Eu16[k as usize].as_mut().unwrap() } }
static mut SL_TrivC: [Option<Vec<TrivC>>; 4] = [None, None, None, None];
fn rs_sl_TrivC(k: i32) -> &'static mut Vec<TrivC> { unsafe { SL_TrivC[k as usize] = Some((0..4).map(|i| mk_TrivC((k + i) & 3)).collect()); SL_TrivC[k as usize].as_mut().unwrap() } }
fn rp_sl_TrivC(k: i32) -> &'static mut Vec<TrivC> { unsafe { SL_TrivC[k as usize].as_mut().unwrap() } }
fn r_take_ref_arr4_u8(mut x: &[u8; 4], k: i32) -> bool { let a = ad_ref_arr4_u8(&x); let ok = ck_ref_arr4_u8(&x, k);  note(a); ok }
fn r_make_ref_arr4_u8(z: &u8, k: i32) -> &[u8; 4] { let x = mk_ref_arr4_u8(k); note(ad_ref_arr4_u8(&x)); x }
fn r_try_ref_arr4_u8(z: &u8, k: i32, fail: bool) -> R<&[u8; 4]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ref_arr4_u8(k); note(ad_ref_arr4_u8(&x)); Ok(x) }
fn r_echo_ref_arr4_u8(x: &[u8; 4], k: i32) -> &[u8; 4] { note(if ck_ref_arr4_u8(&x, k) { ad_ref_arr4_u8(&x) } else { 1 }); x }
fn r_mix_ref_arr4_u8(a: u8, x: &[u8; 4], b: f64, k: i32, y: &[u8; 4], c: u16) -> R<bool> { Ok(a == 200 && ck_ref_arr4_u8(&x, k) && b == -1.5 && ck_ref_arr4_u8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_ref_arr4_u8(&mut self, x: &[u8; 4], k: i32) -> bool { ck_RObj(self, 2) && ck_ref_arr4_u8(&x, k) } }
unsafe fn run_ref_arr4_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ref_arr4_u8(k); let a = ad_ref_arr4_u8(&x); ensure!(ffi::c_take_ref_arr4_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ref_arr4_u8(&Z, k); ensure!(ck_ref_arr4_u8(&x, k) && addr() == ad_ref_arr4_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ref_arr4_u8(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_ref_arr4_u8(&x, k) && addr() == ad_ref_arr4_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ref_arr4_u8(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ref_arr4_u8(k); let a = ad_ref_arr4_u8(&x); let y = ffi::c_echo_ref_arr4_u8(x, k); ensure!(addr() == a && ad_ref_arr4_u8(&y) == a && ck_ref_arr4_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ref_arr4_u8(200, mk_ref_arr4_u8(k), -1.5, k, mk_ref_arr4_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ref_arr4_u8(k); ensure!(o.c_m_ref_arr4_u8(x, k), "method"); }
  7 => { fn f(x: &[u8; 4], k: i32) -> &[u8; 4] { note(if ck_ref_arr4_u8(&x, k) { ad_ref_arr4_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_ref_arr4_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_ref_arr4_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_u8(mut x: &mut u8, k: i32) -> bool { let a = ad_mut_u8(&x); let ok = ck_mut_u8(&x, k); { let x: &mut u8 = x; let k = (k + 1) & 3; *x = mk_u8(k); } note(a); ok }
fn r_make_mut_u8(z: &mut u8, k: i32) -> &mut u8 { let x = mk_mut_u8(k); note(ad_mut_u8(&x)); x }
fn r_try_mut_u8(z: &mut u8, k: i32, fail: bool) -> R<&mut u8> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_u8(k); note(ad_mut_u8(&x)); Ok(x) }
fn r_echo_mut_u8(x: &mut u8, k: i32) -> &mut u8 { note(if ck_mut_u8(&x, k) { ad_mut_u8(&x) } else { 1 }); x }
fn r_mix_mut_u8(a: u8, x: &mut u8, b: f64, k: i32, y: &mut u8, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_u8(&x, k) && b == -1.5 && ck_mut_u8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_mut_u8(&self, x: &mut u8, k: i32) -> bool { ck_S3(self, 2) && ck_mut_u8(&x, k) } }
unsafe fn run_mut_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_u8(k); let a = ad_mut_u8(&x); ensure!(ffi::c_take_mut_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_u8(rp_u8(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_u8(&mut Z, k); ensure!(ck_mut_u8(&x, k) && addr() == ad_mut_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_u8(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_u8(&x, k) && addr() == ad_mut_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_u8(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_u8(k); let a = ad_mut_u8(&x); let y = ffi::c_echo_mut_u8(x, k); ensure!(addr() == a && ad_mut_u8(&y) == a && ck_mut_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_u8(200, mk_mut_u8(k), -1.5, k, mk_mut_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_mut_u8(k); ensure!(o.c_m_mut_u8(x, k), "method"); }
  7 => { fn f(x: &mut u8, k: i32) -> &mut u8 { note(if ck_mut_u8(&x, k) { ad_mut_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_i64(mut x: &mut i64, k: i32) -> bool { let a = ad_mut_i64(&x); let ok = ck_mut_i64(&x, k); { let x: &mut i64 = x; let k = (k + 1) & 3; *x = mk_i64(k); } note(a); ok }
fn r_make_mut_i64(z: &mut u8, k: i32) -> &mut i64 { let x = mk_mut_i64(k); note(ad_mut_i64(&x)); x }
fn r_try_mut_i64(z: &mut u8, k: i32, fail: bool) -> R<&mut i64> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_i64(k); note(ad_mut_i64(&x)); Ok(x) }
fn r_echo_mut_i64(x: &mut i64, k: i32) -> &mut i64 { note(if ck_mut_i64(&x, k) { ad_mut_i64(&x) } else { 1 }); x }
fn r_mix_mut_i64(a: u8, x: &mut i64, b: f64, k: i32, y: &mut i64, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_i64(&x, k) && b == -1.5 && ck_mut_i64(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_mut_i64(&mut self, x: &mut i64, k: i32) -> bool { ck_S3(self, 2) && ck_mut_i64(&x, k) } }
unsafe fn run_mut_i64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_i64(k); let a = ad_mut_i64(&x); ensure!(ffi::c_take_mut_i64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_i64(rp_i64(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_i64(&mut Z, k); ensure!(ck_mut_i64(&x, k) && addr() == ad_mut_i64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_i64(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_i64(&x, k) && addr() == ad_mut_i64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_i64(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_i64(k); let a = ad_mut_i64(&x); let y = ffi::c_echo_mut_i64(x, k); ensure!(addr() == a && ad_mut_i64(&y) == a && ck_mut_i64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_i64(200, mk_mut_i64(k), -1.5, k, mk_mut_i64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_mut_i64(k); ensure!(o.c_m_mut_i64(x, k), "method"); }
  7 => { fn f(x: &mut i64, k: i32) -> &mut i64 { note(if ck_mut_i64(&x, k) { ad_mut_i64(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_i64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_i64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_f32(mut x: &mut f32, k: i32) -> bool { let a = ad_mut_f32(&x); let ok = ck_mut_f32(&x, k); { let x: &mut f32 = x; let k = (k + 1) & 3; *x = mk_f32(k); } note(a); ok }
fn r_make_mut_f32(z: &mut u8, k: i32) -> &mut f32 { let x = mk_mut_f32(k); note(ad_mut_f32(&x)); x }
fn r_try_mut_f32(z: &mut u8, k: i32, fail: bool) -> R<&mut f32> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_f32(k); note(ad_mut_f32(&x)); Ok(x) }
fn r_echo_mut_f32(x: &mut f32, k: i32) -> &mut f32 { note(if ck_mut_f32(&x, k) { ad_mut_f32(&x) } else { 1 }); x }
fn r_mix_mut_f32(a: u8, x: &mut f32, b: f64, k: i32, y: &mut f32, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_f32(&x, k) && b == -1.5 && ck_mut_f32(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_mut_f32(&self, x: &mut f32, k: i32) -> bool { ck_RObj(self, 2) && ck_mut_f32(&x, k) } }
unsafe fn run_mut_f32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_f32(k); let a = ad_mut_f32(&x); ensure!(ffi::c_take_mut_f32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_f32(rp_f32(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_f32(&mut Z, k); ensure!(ck_mut_f32(&x, k) && addr() == ad_mut_f32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_f32(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_f32(&x, k) && addr() == ad_mut_f32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_f32(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_f32(k); let a = ad_mut_f32(&x); let y = ffi::c_echo_mut_f32(x, k); ensure!(addr() == a && ad_mut_f32(&y) == a && ck_mut_f32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_f32(200, mk_mut_f32(k), -1.5, k, mk_mut_f32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_mut_f32(k); ensure!(o.c_m_mut_f32(x, k), "method"); }
  7 => { fn f(x: &mut f32, k: i32) -> &mut f32 { note(if ck_mut_f32(&x, k) { ad_mut_f32(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_f32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_f32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_bool(mut x: &mut bool, k: i32) -> bool { let a = ad_mut_bool(&x); let ok = ck_mut_bool(&x, k); { let x: &mut bool = x; let k = (k + 1) & 3; *x = mk_bool(k); } note(a); ok }
fn r_make_mut_bool(z: &mut u8, k: i32) -> &mut bool { let x = mk_mut_bool(k); note(ad_mut_bool(&x)); x }
fn r_try_mut_bool(z: &mut u8, k: i32, fail: bool) -> R<&mut bool> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_bool(k); note(ad_mut_bool(&x)); Ok(x) }
fn r_echo_mut_bool(x: &mut bool, k: i32) -> &mut bool { note(if ck_mut_bool(&x, k) { ad_mut_bool(&x) } else { 1 }); x }
fn r_mix_mut_bool(a: u8, x: &mut bool, b: f64, k: i32, y: &mut bool, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_bool(&x, k) && b == -1.5 && ck_mut_bool(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_mut_bool(&mut self, x: &mut bool, k: i32) -> bool { ck_RObj(self, 2) && ck_mut_bool(&x, k) } }
unsafe fn run_mut_bool(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_bool(k); let a = ad_mut_bool(&x); ensure!(ffi::c_take_mut_bool(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_bool(rp_bool(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_bool(&mut Z, k); ensure!(ck_mut_bool(&x, k) && addr() == ad_mut_bool(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_bool(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_bool(&x, k) && addr() == ad_mut_bool(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_bool(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_bool(k); let a = ad_mut_bool(&x); let y = ffi::c_echo_mut_bool(x, k); ensure!(addr() == a && ad_mut_bool(&y) == a && ck_mut_bool(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_bool(200, mk_mut_bool(k), -1.5, k, mk_mut_bool((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_mut_bool(k); ensure!(o.c_m_mut_bool(x, k), "method"); }
  7 => { fn f(x: &mut bool, k: i32) -> &mut bool { note(if ck_mut_bool(&x, k) { ad_mut_bool(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_bool(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_bool(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_String(mut x: &mut String, k: i32) -> bool { let a = ad_mut_String(&x); let ok = ck_mut_String(&x, k); { let x: &mut String = x; let k = (k + 1) & 3; *x = mk_String(k); } note(a); ok }
fn r_make_mut_String(z: &mut u8, k: i32) -> &mut String { let x = mk_mut_String(k); note(ad_mut_String(&x)); x }
fn r_try_mut_String(z: &mut u8, k: i32, fail: bool) -> R<&mut String> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_String(k); note(ad_mut_String(&x)); Ok(x) }
fn r_echo_mut_String(x: &mut String, k: i32) -> &mut String { note(if ck_mut_String(&x, k) { ad_mut_String(&x) } else { 1 }); x }
fn r_mix_mut_String(a: u8, x: &mut String, b: f64, k: i32, y: &mut String, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_String(&x, k) && b == -1.5 && ck_mut_String(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_mut_String(&self, x: &mut String, k: i32) -> bool { ck_S3(self, 2) && ck_mut_String(&x, k) } }
unsafe fn run_mut_String(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_String(k); let a = ad_mut_String(&x); ensure!(ffi::c_take_mut_String(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_String(rp_String(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_String(&mut Z, k); ensure!(ck_mut_String(&x, k) && addr() == ad_mut_String(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_String(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_String(&x, k) && addr() == ad_mut_String(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_String(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_String(k); let a = ad_mut_String(&x); let y = ffi::c_echo_mut_String(x, k); ensure!(addr() == a && ad_mut_String(&y) == a && ck_mut_String(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_String(200, mk_mut_String(k), -1.5, k, mk_mut_String((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_mut_String(k); ensure!(o.c_m_mut_String(x, k), "method"); }
  7 => { fn f(x: &mut String, k: i32) -> &mut String { note(if ck_mut_String(&x, k) { ad_mut_String(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_String(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_String(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_S2(mut x: &mut S2, k: i32) -> bool { let a = ad_mut_S2(&x); let ok = ck_mut_S2(&x, k); { let x: &mut S2 = x; let k = (k + 1) & 3; *x = mk_S2(k); } note(a); ok }
fn r_make_mut_S2(z: &mut u8, k: i32) -> &mut S2 { let x = mk_mut_S2(k); note(ad_mut_S2(&x)); x }
fn r_try_mut_S2(z: &mut u8, k: i32, fail: bool) -> R<&mut S2> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_S2(k); note(ad_mut_S2(&x)); Ok(x) }
fn r_echo_mut_S2(x: &mut S2, k: i32) -> &mut S2 { note(if ck_mut_S2(&x, k) { ad_mut_S2(&x) } else { 1 }); x }
fn r_mix_mut_S2(a: u8, x: &mut S2, b: f64, k: i32, y: &mut S2, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_S2(&x, k) && b == -1.5 && ck_mut_S2(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_mut_S2(&mut self, x: &mut S2, k: i32) -> bool { ck_S3(self, 2) && ck_mut_S2(&x, k) } }
unsafe fn run_mut_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_S2(k); let a = ad_mut_S2(&x); ensure!(ffi::c_take_mut_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_S2(rp_S2(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_S2(&mut Z, k); ensure!(ck_mut_S2(&x, k) && addr() == ad_mut_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_S2(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_S2(&x, k) && addr() == ad_mut_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_S2(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_S2(k); let a = ad_mut_S2(&x); let y = ffi::c_echo_mut_S2(x, k); ensure!(addr() == a && ad_mut_S2(&y) == a && ck_mut_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_S2(200, mk_mut_S2(k), -1.5, k, mk_mut_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_mut_S2(k); ensure!(o.c_m_mut_S2(x, k), "method"); }
  7 => { fn f(x: &mut S2, k: i32) -> &mut S2 { note(if ck_mut_S2(&x, k) { ad_mut_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_S7(mut x: &mut S7, k: i32) -> bool { let a = ad_mut_S7(&x); let ok = ck_mut_S7(&x, k); { let x: &mut S7 = x; let k = (k + 1) & 3; *x = mk_S7(k); } note(a); ok }
fn r_make_mut_S7(z: &mut u8, k: i32) -> &mut S7 { let x = mk_mut_S7(k); note(ad_mut_S7(&x)); x }
fn r_try_mut_S7(z: &mut u8, k: i32, fail: bool) -> R<&mut S7> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_S7(k); note(ad_mut_S7(&x)); Ok(x) }
fn r_echo_mut_S7(x: &mut S7, k: i32) -> &mut S7 { note(if ck_mut_S7(&x, k) { ad_mut_S7(&x) } else { 1 }); x }
fn r_mix_mut_S7(a: u8, x: &mut S7, b: f64, k: i32, y: &mut S7, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_S7(&x, k) && b == -1.5 && ck_mut_S7(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_mut_S7(&self, x: &mut S7, k: i32) -> bool { ck_RObj(self, 2) && ck_mut_S7(&x, k) } }
unsafe fn run_mut_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_S7(k); let a = ad_mut_S7(&x); ensure!(ffi::c_take_mut_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_S7(rp_S7(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_S7(&mut Z, k); ensure!(ck_mut_S7(&x, k) && addr() == ad_mut_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_S7(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_S7(&x, k) && addr() == ad_mut_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_S7(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_S7(k); let a = ad_mut_S7(&x); let y = ffi::c_echo_mut_S7(x, k); ensure!(addr() == a && ad_mut_S7(&y) == a && ck_mut_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_S7(200, mk_mut_S7(k), -1.5, k, mk_mut_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_mut_S7(k); ensure!(o.c_m_mut_S7(x, k), "method"); }
  7 => { fn f(x: &mut S7, k: i32) -> &mut S7 { note(if ck_mut_S7(&x, k) { ad_mut_S7(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_S7(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_RObj(mut x: &mut RObj, k: i32) -> bool { let a = ad_mut_RObj(&x); let ok = ck_mut_RObj(&x, k); { let x: &mut RObj = x; let k = (k + 1) & 3; x.r_set(k); } note(a); ok }
fn r_make_mut_RObj(z: &mut u8, k: i32) -> &mut RObj { let x = mk_mut_RObj(k); note(ad_mut_RObj(&x)); x }
fn r_try_mut_RObj(z: &mut u8, k: i32, fail: bool) -> R<&mut RObj> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_RObj(k); note(ad_mut_RObj(&x)); Ok(x) }
fn r_echo_mut_RObj(x: &mut RObj, k: i32) -> &mut RObj { note(if ck_mut_RObj(&x, k) { ad_mut_RObj(&x) } else { 1 }); x }
fn r_mix_mut_RObj(a: u8, x: &mut RObj, b: f64, k: i32, y: &mut RObj, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_RObj(&x, k) && b == -1.5 && ck_mut_RObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_mut_RObj(&mut self, x: &mut RObj, k: i32) -> bool { ck_RObj(self, 2) && ck_mut_RObj(&x, k) } }
unsafe fn run_mut_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_RObj(k); let a = ad_mut_RObj(&x); ensure!(ffi::c_take_mut_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_RObj(rp_RObj(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_RObj(&mut Z, k); ensure!(ck_mut_RObj(&x, k) && addr() == ad_mut_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_RObj(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_RObj(&x, k) && addr() == ad_mut_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_RObj(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_RObj(k); let a = ad_mut_RObj(&x); let y = ffi::c_echo_mut_RObj(x, k); ensure!(addr() == a && ad_mut_RObj(&y) == a && ck_mut_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_RObj(200, mk_mut_RObj(k), -1.5, k, mk_mut_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_mut_RObj(k); ensure!(o.c_m_mut_RObj(x, k), "method"); }
  7 => { fn f(x: &mut RObj, k: i32) -> &mut RObj { note(if ck_mut_RObj(&x, k) { ad_mut_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_CObj(mut x: Pin<&mut CObj>, k: i32) -> bool { let a = ad_mut_CObj(&x); let ok = ck_mut_CObj(&x, k); { let x: Pin<&mut CObj> = x; let k = (k + 1) & 3; x.c_set(k); } note(a); ok }
fn r_make_mut_CObj(z: &mut u8, k: i32) -> Pin<&mut CObj> { let x = mk_mut_CObj(k); note(ad_mut_CObj(&x)); x }
fn r_try_mut_CObj(z: &mut u8, k: i32, fail: bool) -> R<Pin<&mut CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_CObj(k); note(ad_mut_CObj(&x)); Ok(x) }
fn r_echo_mut_CObj(x: Pin<&mut CObj>, k: i32) -> Pin<&mut CObj> { note(if ck_mut_CObj(&x, k) { ad_mut_CObj(&x) } else { 1 }); x }
fn r_mix_mut_CObj(a: u8, x: Pin<&mut CObj>, b: f64, k: i32, y: Pin<&mut CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_CObj(&x, k) && b == -1.5 && ck_mut_CObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_mut_CObj(&self, x: Pin<&mut CObj>, k: i32) -> bool { ck_S3(self, 2) && ck_mut_CObj(&x, k) } }
unsafe fn run_mut_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_CObj(k); let a = ad_mut_CObj(&x); ensure!(ffi::c_take_mut_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_CObj(rp_CObj(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_CObj(&mut Z, k); ensure!(ck_mut_CObj(&x, k) && addr() == ad_mut_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_CObj(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_CObj(&x, k) && addr() == ad_mut_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_CObj(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_CObj(k); let a = ad_mut_CObj(&x); let y = ffi::c_echo_mut_CObj(x, k); ensure!(addr() == a && ad_mut_CObj(&y) == a && ck_mut_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_CObj(200, mk_mut_CObj(k), -1.5, k, mk_mut_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_mut_CObj(k); ensure!(o.c_m_mut_CObj(x, k), "method"); }
  7 => { fn f(x: Pin<&mut CObj>, k: i32) -> Pin<&mut CObj> { note(if ck_mut_CObj(&x, k) { ad_mut_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_CxxString(mut x: Pin<&mut CxxString>, k: i32) -> bool { let a = ad_mut_CxxString(&x); let ok = ck_mut_CxxString(&x, k); { let x: Pin<&mut CxxString> = x; let k = (k + 1) & 3; let mut x = x; x.as_mut().clear(); x.push_str(TXT[k as usize]); } note(a); ok }
fn r_make_mut_CxxString(z: &mut u8, k: i32) -> Pin<&mut CxxString> { let x = mk_mut_CxxString(k); note(ad_mut_CxxString(&x)); x }
fn r_try_mut_CxxString(z: &mut u8, k: i32, fail: bool) -> R<Pin<&mut CxxString>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_CxxString(k); note(ad_mut_CxxString(&x)); Ok(x) }
fn r_echo_mut_CxxString(x: Pin<&mut CxxString>, k: i32) -> Pin<&mut CxxString> { note(if ck_mut_CxxString(&x, k) { ad_mut_CxxString(&x) } else { 1 }); x }
fn r_mix_mut_CxxString(a: u8, x: Pin<&mut CxxString>, b: f64, k: i32, y: Pin<&mut CxxString>, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_CxxString(&x, k) && b == -1.5 && ck_mut_CxxString(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_mut_CxxString(&mut self, x: Pin<&mut CxxString>, k: i32) -> bool { ck_S3(self, 2) && ck_mut_CxxString(&x, k) } }
unsafe fn run_mut_CxxString(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_CxxString(k); let a = ad_mut_CxxString(&x); ensure!(ffi::c_take_mut_CxxString(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_CxxString(rp_CxxString(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_CxxString(&mut Z, k); ensure!(ck_mut_CxxString(&x, k) && addr() == ad_mut_CxxString(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_CxxString(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_CxxString(&x, k) && addr() == ad_mut_CxxString(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_CxxString(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_CxxString(k); let a = ad_mut_CxxString(&x); let y = ffi::c_echo_mut_CxxString(x, k); ensure!(addr() == a && ad_mut_CxxString(&y) == a && ck_mut_CxxString(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_CxxString(200, mk_mut_CxxString(k), -1.5, k, mk_mut_CxxString((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_mut_CxxString(k); ensure!(o.c_m_mut_CxxString(x, k), "method"); }
  7 => { fn f(x: Pin<&mut CxxString>, k: i32) -> Pin<&mut CxxString> { note(if ck_mut_CxxString(&x, k) { ad_mut_CxxString(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_CxxString(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_CxxString(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_CxxVector_u8(mut x: Pin<&mut CxxVector<u8>>, k: i32) -> bool { let a = ad_mut_CxxVector_u8(&x); let ok = ck_mut_CxxVector_u8(&x, k); { let x: Pin<&mut CxxVector<u8>> = x; let k = (k + 1) & 3; let mut x = x; while x.as_mut().pop().is_some() {} for i in 0..k { x.as_mut().push(mk_u8((k + i) & 3)); } } note(a); ok }
fn r_make_mut_CxxVector_u8(z: &mut u8, k: i32) -> Pin<&mut CxxVector<u8>> { let x = mk_mut_CxxVector_u8(k); note(ad_mut_CxxVector_u8(&x)); x }
fn r_try_mut_CxxVector_u8(z: &mut u8, k: i32, fail: bool) -> R<Pin<&mut CxxVector<u8>>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_CxxVector_u8(k); note(ad_mut_CxxVector_u8(&x)); Ok(x) }
fn r_echo_mut_CxxVector_u8(x: Pin<&mut CxxVector<u8>>, k: i32) -> Pin<&mut CxxVector<u8>> { note(if ck_mut_CxxVector_u8(&x, k) { ad_mut_CxxVector_u8(&x) } else { 1 }); x }
fn r_mix_mut_CxxVector_u8(a: u8, x: Pin<&mut CxxVector<u8>>, b: f64, k: i32, y: Pin<&mut CxxVector<u8>>, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_CxxVector_u8(&x, k) && b == -1.5 && ck_mut_CxxVector_u8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_mut_CxxVector_u8(&self, x: Pin<&mut CxxVector<u8>>, k: i32) -> bool { ck_RObj(self, 2) && ck_mut_CxxVector_u8(&x, k) } }
unsafe fn run_mut_CxxVector_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_CxxVector_u8(k); let a = ad_mut_CxxVector_u8(&x); ensure!(ffi::c_take_mut_CxxVector_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_CxxVector_u8(rp_CxxVector_u8(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_CxxVector_u8(&mut Z, k); ensure!(ck_mut_CxxVector_u8(&x, k) && addr() == ad_mut_CxxVector_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_CxxVector_u8(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_CxxVector_u8(&x, k) && addr() == ad_mut_CxxVector_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_CxxVector_u8(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_CxxVector_u8(k); let a = ad_mut_CxxVector_u8(&x); let y = ffi::c_echo_mut_CxxVector_u8(x, k); ensure!(addr() == a && ad_mut_CxxVector_u8(&y) == a && ck_mut_CxxVector_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_CxxVector_u8(200, mk_mut_CxxVector_u8(k), -1.5, k, mk_mut_CxxVector_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_mut_CxxVector_u8(k); ensure!(o.c_m_mut_CxxVector_u8(x, k), "method"); }
  7 => { fn f(x: Pin<&mut CxxVector<u8>>, k: i32) -> Pin<&mut CxxVector<u8>> { note(if ck_mut_CxxVector_u8(&x, k) { ad_mut_CxxVector_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_CxxVector_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_CxxVector_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_CxxVector_S2(mut x: Pin<&mut CxxVector<S2>>, k: i32) -> bool { let a = ad_mut_CxxVector_S2(&x); let ok = ck_mut_CxxVector_S2(&x, k); { let x: Pin<&mut CxxVector<S2>> = x; let k = (k + 1) & 3; let mut x = x; while x.as_mut().pop().is_some() {} for i in 0..k { x.as_mut().push(mk_S2((k + i) & 3)); } } note(a); ok }
fn r_make_mut_CxxVector_S2(z: &mut u8, k: i32) -> Pin<&mut CxxVector<S2>> { let x = mk_mut_CxxVector_S2(k); note(ad_mut_CxxVector_S2(&x)); x }
fn r_try_mut_CxxVector_S2(z: &mut u8, k: i32, fail: bool) -> R<Pin<&mut CxxVector<S2>>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_CxxVector_S2(k); note(ad_mut_CxxVector_S2(&x)); Ok(x) }
fn r_echo_mut_CxxVector_S2(x: Pin<&mut CxxVector<S2>>, k: i32) -> Pin<&mut CxxVector<S2>> { note(if ck_mut_CxxVector_S2(&x, k) { ad_mut_CxxVector_S2(&x) } else { 1 }); x }
fn r_mix_mut_CxxVector_S2(a: u8, x: Pin<&mut CxxVector<S2>>, b: f64, k: i32, y: Pin<&mut CxxVector<S2>>, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_CxxVector_S2(&x, k) && b == -1.5 && ck_mut_CxxVector_S2(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_mut_CxxVector_S2(&mut self, x: Pin<&mut CxxVector<S2>>, k: i32) -> bool { ck_RObj(self, 2) && ck_mut_CxxVector_S2(&x, k) } }
unsafe fn run_mut_CxxVector_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_CxxVector_S2(k); let a = ad_mut_CxxVector_S2(&x); ensure!(ffi::c_take_mut_CxxVector_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_CxxVector_S2(rp_CxxVector_S2(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_CxxVector_S2(&mut Z, k); ensure!(ck_mut_CxxVector_S2(&x, k) && addr() == ad_mut_CxxVector_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_CxxVector_S2(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_CxxVector_S2(&x, k) && addr() == ad_mut_CxxVector_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_CxxVector_S2(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_CxxVector_S2(k); let a = ad_mut_CxxVector_S2(&x); let y = ffi::c_echo_mut_CxxVector_S2(x, k); ensure!(addr() == a && ad_mut_CxxVector_S2(&y) == a && ck_mut_CxxVector_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_CxxVector_S2(200, mk_mut_CxxVector_S2(k), -1.5, k, mk_mut_CxxVector_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_mut_CxxVector_S2(k); ensure!(o.c_m_mut_CxxVector_S2(x, k), "method"); }
  7 => { fn f(x: Pin<&mut CxxVector<S2>>, k: i32) -> Pin<&mut CxxVector<S2>> { note(if ck_mut_CxxVector_S2(&x, k) { ad_mut_CxxVector_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_CxxVector_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_CxxVector_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_Vec_u8(mut x: &mut Vec<u8>, k: i32) -> bool { let a = ad_mut_Vec_u8(&x); let ok = ck_mut_Vec_u8(&x, k); { let x: &mut Vec<u8> = x; let k = (k + 1) & 3; *x = mk_Vec_u8(k); } note(a); ok }
fn r_make_mut_Vec_u8(z: &mut u8, k: i32) -> &mut Vec<u8> { let x = mk_mut_Vec_u8(k); note(ad_mut_Vec_u8(&x)); x }
fn r_try_mut_Vec_u8(z: &mut u8, k: i32, fail: bool) -> R<&mut Vec<u8>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_Vec_u8(k); note(ad_mut_Vec_u8(&x)); Ok(x) }
fn r_echo_mut_Vec_u8(x: &mut Vec<u8>, k: i32) -> &mut Vec<u8> { note(if ck_mut_Vec_u8(&x, k) { ad_mut_Vec_u8(&x) } else { 1 }); x }
fn r_mix_mut_Vec_u8(a: u8, x: &mut Vec<u8>, b: f64, k: i32, y: &mut Vec<u8>, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_Vec_u8(&x, k) && b == -1.5 && ck_mut_Vec_u8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_mut_Vec_u8(&self, x: &mut Vec<u8>, k: i32) -> bool { ck_S3(self, 2) && ck_mut_Vec_u8(&x, k) } }
unsafe fn run_mut_Vec_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_Vec_u8(k); let a = ad_mut_Vec_u8(&x); ensure!(ffi::c_take_mut_Vec_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_Vec_u8(rp_Vec_u8(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_Vec_u8(&mut Z, k); ensure!(ck_mut_Vec_u8(&x, k) && addr() == ad_mut_Vec_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_Vec_u8(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_Vec_u8(&x, k) && addr() == ad_mut_Vec_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_Vec_u8(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_Vec_u8(k); let a = ad_mut_Vec_u8(&x); let y = ffi::c_echo_mut_Vec_u8(x, k); ensure!(addr() == a && ad_mut_Vec_u8(&y) == a && ck_mut_Vec_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_Vec_u8(200, mk_mut_Vec_u8(k), -1.5, k, mk_mut_Vec_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_mut_Vec_u8(k); ensure!(o.c_m_mut_Vec_u8(x, k), "method"); }
  7 => { fn f(x: &mut Vec<u8>, k: i32) -> &mut Vec<u8> { note(if ck_mut_Vec_u8(&x, k) { ad_mut_Vec_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_Vec_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_Vec_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_Vec_String(mut x: &mut Vec<String>, k: i32) -> bool { let a = ad_mut_Vec_String(&x); let ok = ck_mut_Vec_String(&x, k); { let x: &mut Vec<String> = x; let k = (k + 1) & 3; *x = mk_Vec_String(k); } note(a); ok }
fn r_make_mut_Vec_String(z: &mut u8, k: i32) -> &mut Vec<String> { let x = mk_mut_Vec_String(k); note(ad_mut_Vec_String(&x)); x }
fn r_try_mut_Vec_String(z: &mut u8, k: i32, fail: bool) -> R<&mut Vec<String>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_Vec_String(k); note(ad_mut_Vec_String(&x)); Ok(x) }
fn r_echo_mut_Vec_String(x: &mut Vec<String>, k: i32) -> &mut Vec<String> { note(if ck_mut_Vec_String(&x, k) { ad_mut_Vec_String(&x) } else { 1 }); x }
fn r_mix_mut_Vec_String(a: u8, x: &mut Vec<String>, b: f64, k: i32, y: &mut Vec<String>, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_Vec_String(&x, k) && b == -1.5 && ck_mut_Vec_String(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_mut_Vec_String(&mut self, x: &mut Vec<String>, k: i32) -> bool { ck_S3(self, 2) && ck_mut_Vec_String(&x, k) } }
unsafe fn run_mut_Vec_String(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_Vec_String(k); let a = ad_mut_Vec_String(&x); ensure!(ffi::c_take_mut_Vec_String(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_Vec_String(rp_Vec_String(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_Vec_String(&mut Z, k); ensure!(ck_mut_Vec_String(&x, k) && addr() == ad_mut_Vec_String(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_Vec_String(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_Vec_String(&x, k) && addr() == ad_mut_Vec_String(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_Vec_String(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_Vec_String(k); let a = ad_mut_Vec_String(&x); let y = ffi::c_echo_mut_Vec_String(x, k); ensure!(addr() == a && ad_mut_Vec_String(&y) == a && ck_mut_Vec_String(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_Vec_String(200, mk_mut_Vec_String(k), -1.5, k, mk_mut_Vec_String((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_mut_Vec_String(k); ensure!(o.c_m_mut_Vec_String(x, k), "method"); }
  7 => { fn f(x: &mut Vec<String>, k: i32) -> &mut Vec<String> { note(if ck_mut_Vec_String(&x, k) { ad_mut_Vec_String(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_Vec_String(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_Vec_String(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_Box_RObj(mut x: &mut Box<RObj>, k: i32) -> bool { let a = ad_mut_Box_RObj(&x); let ok = ck_mut_Box_RObj(&x, k); { let x: &mut Box<RObj> = x; let k = (k + 1) & 3; *x = mk_Box_RObj(k); } note(a); ok }
fn r_make_mut_Box_RObj(z: &mut u8, k: i32) -> &mut Box<RObj> { let x = mk_mut_Box_RObj(k); note(ad_mut_Box_RObj(&x)); x }
fn r_try_mut_Box_RObj(z: &mut u8, k: i32, fail: bool) -> R<&mut Box<RObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_Box_RObj(k); note(ad_mut_Box_RObj(&x)); Ok(x) }
fn r_echo_mut_Box_RObj(x: &mut Box<RObj>, k: i32) -> &mut Box<RObj> { note(if ck_mut_Box_RObj(&x, k) { ad_mut_Box_RObj(&x) } else { 1 }); x }
fn r_mix_mut_Box_RObj(a: u8, x: &mut Box<RObj>, b: f64, k: i32, y: &mut Box<RObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_Box_RObj(&x, k) && b == -1.5 && ck_mut_Box_RObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_mut_Box_RObj(&self, x: &mut Box<RObj>, k: i32) -> bool { ck_RObj(self, 2) && ck_mut_Box_RObj(&x, k) } }
unsafe fn run_mut_Box_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_Box_RObj(k); let a = ad_mut_Box_RObj(&x); ensure!(ffi::c_take_mut_Box_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_Box_RObj(rp_Box_RObj(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_Box_RObj(&mut Z, k); ensure!(ck_mut_Box_RObj(&x, k) && addr() == ad_mut_Box_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_Box_RObj(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_Box_RObj(&x, k) && addr() == ad_mut_Box_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_Box_RObj(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_Box_RObj(k); let a = ad_mut_Box_RObj(&x); let y = ffi::c_echo_mut_Box_RObj(x, k); ensure!(addr() == a && ad_mut_Box_RObj(&y) == a && ck_mut_Box_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_Box_RObj(200, mk_mut_Box_RObj(k), -1.5, k, mk_mut_Box_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_mut_Box_RObj(k); ensure!(o.c_m_mut_Box_RObj(x, k), "method"); }
  7 => { fn f(x: &mut Box<RObj>, k: i32) -> &mut Box<RObj> { note(if ck_mut_Box_RObj(&x, k) { ad_mut_Box_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_Box_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_Box_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_UniquePtr_CObj(mut x: &mut UniquePtr<CObj>, k: i32) -> bool { let a = ad_mut_UniquePtr_CObj(&x); let ok = ck_mut_UniquePtr_CObj(&x, k); { let x: &mut UniquePtr<CObj> = x; let k = (k + 1) & 3; *x = mk_UniquePtr_CObj(k); } note(a); ok }
fn r_make_mut_UniquePtr_CObj(z: &mut u8, k: i32) -> &mut UniquePtr<CObj> { let x = mk_mut_UniquePtr_CObj(k); note(ad_mut_UniquePtr_CObj(&x)); x }
fn r_try_mut_UniquePtr_CObj(z: &mut u8, k: i32, fail: bool) -> R<&mut UniquePtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_UniquePtr_CObj(k); note(ad_mut_UniquePtr_CObj(&x)); Ok(x) }
fn r_echo_mut_UniquePtr_CObj(x: &mut UniquePtr<CObj>, k: i32) -> &mut UniquePtr<CObj> { note(if ck_mut_UniquePtr_CObj(&x, k) { ad_mut_UniquePtr_CObj(&x) } else { 1 }); x }
fn r_mix_mut_UniquePtr_CObj(a: u8, x: &mut UniquePtr<CObj>, b: f64, k: i32, y: &mut UniquePtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_UniquePtr_CObj(&x, k) && b == -1.5 && ck_mut_UniquePtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_mut_UniquePtr_CObj(&mut self, x: &mut UniquePtr<CObj>, k: i32) -> bool { ck_RObj(self, 2) && ck_mut_UniquePtr_CObj(&x, k) } }
unsafe fn run_mut_UniquePtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_UniquePtr_CObj(k); let a = ad_mut_UniquePtr_CObj(&x); ensure!(ffi::c_take_mut_UniquePtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_UniquePtr_CObj(rp_UniquePtr_CObj(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_UniquePtr_CObj(&mut Z, k); ensure!(ck_mut_UniquePtr_CObj(&x, k) && addr() == ad_mut_UniquePtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_UniquePtr_CObj(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_UniquePtr_CObj(&x, k) && addr() == ad_mut_UniquePtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_UniquePtr_CObj(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_UniquePtr_CObj(k); let a = ad_mut_UniquePtr_CObj(&x); let y = ffi::c_echo_mut_UniquePtr_CObj(x, k); ensure!(addr() == a && ad_mut_UniquePtr_CObj(&y) == a && ck_mut_UniquePtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_UniquePtr_CObj(200, mk_mut_UniquePtr_CObj(k), -1.5, k, mk_mut_UniquePtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_mut_UniquePtr_CObj(k); ensure!(o.c_m_mut_UniquePtr_CObj(x, k), "method"); }
  7 => { fn f(x: &mut UniquePtr<CObj>, k: i32) -> &mut UniquePtr<CObj> { note(if ck_mut_UniquePtr_CObj(&x, k) { ad_mut_UniquePtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_UniquePtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_UniquePtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_SharedPtr_CObj(mut x: &mut SharedPtr<CObj>, k: i32) -> bool { let a = ad_mut_SharedPtr_CObj(&x); let ok = ck_mut_SharedPtr_CObj(&x, k); { let x: &mut SharedPtr<CObj> = x; let k = (k + 1) & 3; *x = mk_SharedPtr_CObj(k); } note(a); ok }
fn r_make_mut_SharedPtr_CObj(z: &mut u8, k: i32) -> &mut SharedPtr<CObj> { let x = mk_mut_SharedPtr_CObj(k); note(ad_mut_SharedPtr_CObj(&x)); x }
fn r_try_mut_SharedPtr_CObj(z: &mut u8, k: i32, fail: bool) -> R<&mut SharedPtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_SharedPtr_CObj(k); note(ad_mut_SharedPtr_CObj(&x)); Ok(x) }
fn r_echo_mut_SharedPtr_CObj(x: &mut SharedPtr<CObj>, k: i32) -> &mut SharedPtr<CObj> { note(if ck_mut_SharedPtr_CObj(&x, k) { ad_mut_SharedPtr_CObj(&x) } else { 1 }); x }
fn r_mix_mut_SharedPtr_CObj(a: u8, x: &mut SharedPtr<CObj>, b: f64, k: i32, y: &mut SharedPtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_SharedPtr_CObj(&x, k) && b == -1.5 && ck_mut_SharedPtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_mut_SharedPtr_CObj(&self, x: &mut SharedPtr<CObj>, k: i32) -> bool { ck_S3(self, 2) && ck_mut_SharedPtr_CObj(&x, k) } }
unsafe fn run_mut_SharedPtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_SharedPtr_CObj(k); let a = ad_mut_SharedPtr_CObj(&x); ensure!(ffi::c_take_mut_SharedPtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_SharedPtr_CObj(rp_SharedPtr_CObj(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_SharedPtr_CObj(&mut Z, k); ensure!(ck_mut_SharedPtr_CObj(&x, k) && addr() == ad_mut_SharedPtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_SharedPtr_CObj(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_SharedPtr_CObj(&x, k) && addr() == ad_mut_SharedPtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_SharedPtr_CObj(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_SharedPtr_CObj(k); let a = ad_mut_SharedPtr_CObj(&x); let y = ffi::c_echo_mut_SharedPtr_CObj(x, k); ensure!(addr() == a && ad_mut_SharedPtr_CObj(&y) == a && ck_mut_SharedPtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_SharedPtr_CObj(200, mk_mut_SharedPtr_CObj(k), -1.5, k, mk_mut_SharedPtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_mut_SharedPtr_CObj(k); ensure!(o.c_m_mut_SharedPtr_CObj(x, k), "method"); }
  7 => { fn f(x: &mut SharedPtr<CObj>, k: i32) -> &mut SharedPtr<CObj> { note(if ck_mut_SharedPtr_CObj(&x, k) { ad_mut_SharedPtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_SharedPtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_SharedPtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_Ei32(mut x: &mut Ei32, k: i32) -> bool { let a = ad_mut_Ei32(&x); let ok = ck_mut_Ei32(&x, k); { let x: &mut Ei32 = x; let k = (k + 1) & 3; *x = mk_Ei32(k); } note(a); ok }
fn r_make_mut_Ei32(z: &mut u8, k: i32) -> &mut Ei32 { let x = mk_mut_Ei32(k); note(ad_mut_Ei32(&x)); x }
fn r_try_mut_Ei32(z: &mut u8, k: i32, fail: bool) -> R<&mut Ei32> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_Ei32(k); note(ad_mut_Ei32(&x)); Ok(x) }
fn r_echo_mut_Ei32(x: &mut Ei32, k: i32) -> &mut Ei32 { note(if ck_mut_Ei32(&x, k) { ad_mut_Ei32(&x) } else { 1 }); x }
fn r_mix_mut_Ei32(a: u8, x: &mut Ei32, b: f64, k: i32, y: &mut Ei32, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_Ei32(&x, k) && b == -1.5 && ck_mut_Ei32(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_mut_Ei32(&mut self, x: &mut Ei32, k: i32) -> bool { ck_S3(self, 2) && ck_mut_Ei32(&x, k) } }
unsafe fn run_mut_Ei32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_Ei32(k); let a = ad_mut_Ei32(&x); ensure!(ffi::c_take_mut_Ei32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_Ei32(rp_Ei32(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_Ei32(&mut Z, k); ensure!(ck_mut_Ei32(&x, k) && addr() == ad_mut_Ei32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_Ei32(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_Ei32(&x, k) && addr() == ad_mut_Ei32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_Ei32(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_Ei32(k); let a = ad_mut_Ei32(&x); let y = ffi::c_echo_mut_Ei32(x, k); ensure!(addr() == a && ad_mut_Ei32(&y) == a && ck_mut_Ei32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_Ei32(200, mk_mut_Ei32(k), -1.5, k, mk_mut_Ei32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_mut_Ei32(k); ensure!(o.c_m_mut_Ei32(x, k), "method"); }
  7 => { fn f(x: &mut Ei32, k: i32) -> &mut Ei32 { note(if ck_mut_Ei32(&x, k) { ad_mut_Ei32(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_Ei32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_Ei32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_TrivB(mut x: &mut TrivB, k: i32) -> bool { let a = ad_mut_TrivB(&x); let ok = ck_mut_TrivB(&x, k); { let x: &mut TrivB = x; let k = (k + 1) & 3; *x = mk_TrivB(k); } note(a); ok }
fn r_make_mut_TrivB(z: &mut u8, k: i32) -> &mut TrivB { let x = mk_mut_TrivB(k); note(ad_mut_TrivB(&x)); x }
fn r_try_mut_TrivB(z: &mut u8, k: i32, fail: bool) -> R<&mut TrivB> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_TrivB(k); note(ad_mut_TrivB(&x)); Ok(x) }
fn r_echo_mut_TrivB(x: &mut TrivB, k: i32) -> &mut TrivB { note(if ck_mut_TrivB(&x, k) { ad_mut_TrivB(&x) } else { 1 }); x }
fn r_mix_mut_TrivB(a: u8, x: &mut TrivB, b: f64, k: i32, y: &mut TrivB, c: u16) -> R<bool> { Ok(a == 200 && ck_mut_TrivB(&x, k) && b == -1.5 && ck_mut_TrivB(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_mut_TrivB(&self, x: &mut TrivB, k: i32) -> bool { ck_RObj(self, 2) && ck_mut_TrivB(&x, k) } }
unsafe fn run_mut_TrivB(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_TrivB(k); let a = ad_mut_TrivB(&x); ensure!(ffi::c_take_mut_TrivB(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_TrivB(rp_TrivB(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_TrivB(&mut Z, k); ensure!(ck_mut_TrivB(&x, k) && addr() == ad_mut_TrivB(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_TrivB(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_TrivB(&x, k) && addr() == ad_mut_TrivB(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_TrivB(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_TrivB(k); let a = ad_mut_TrivB(&x); let y = ffi::c_echo_mut_TrivB(x, k); ensure!(addr() == a && ad_mut_TrivB(&y) == a && ck_mut_TrivB(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_TrivB(200, mk_mut_TrivB(k), -1.5, k, mk_mut_TrivB((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_mut_TrivB(k); ensure!(o.c_m_mut_TrivB(x, k), "method"); }
  7 => { fn f(x: &mut TrivB, k: i32) -> &mut TrivB { note(if ck_mut_TrivB(&x, k) { ad_mut_TrivB(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_TrivB(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_TrivB(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_mut_arr3_S2(mut x: &mut [S2; 3], k: i32) -> bool { let a = ad_mut_arr3_S2(&x); let ok = ck_mut_arr3_S2(&x, k); { let x: &mut [S2; 3] = x; let k = (k + 1) & 3; *x = mk_arr3_S2(k); } note(a); ok }
fn r_make_mut_arr3_S2(z: &mut u8, k: i32) -> &mut [S2; 3] { let x = mk_mut_arr3_S2(k); note(ad_mut_arr3_S2(&x)); x }
fn r_try_mut_arr3_S2(z: &mut u8, k: i32, fail: bool) -> R<&mut [S2; 3]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_mut_arr3_S2(k); note(ad_mut_arr3_S2(&x)); Ok(x) }
fn r_echo_mut_arr3_S2(x: &mut [S2; 3], k: i32) -> &mut [S2; 3] { note(if ck_mut_arr3_S2(&x, k) { ad_mut_arr3_S2(&x) } else { 1 }); x }
fn r_mix_mut_arr3_S2(a: u8, x: &mut [S2; 3], b: f64, k: i32, y: &mut [S2; 3], c: u16) -> R<bool> { Ok(a == 200 && ck_mut_arr3_S2(&x, k) && b == -1.5 && ck_mut_arr3_S2(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_mut_arr3_S2(&mut self, x: &mut [S2; 3], k: i32) -> bool { ck_RObj(self, 2) && ck_mut_arr3_S2(&x, k) } }
unsafe fn run_mut_arr3_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_mut_arr3_S2(k); let a = ad_mut_arr3_S2(&x); ensure!(ffi::c_take_mut_arr3_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(ck_arr3_S2(rp_arr3_S2(k), (k + 1) & 3), "mutation not seen"); }
  1 => { let x = ffi::c_make_mut_arr3_S2(&mut Z, k); ensure!(ck_mut_arr3_S2(&x, k) && addr() == ad_mut_arr3_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_mut_arr3_S2(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_mut_arr3_S2(&x, k) && addr() == ad_mut_arr3_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_mut_arr3_S2(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_mut_arr3_S2(k); let a = ad_mut_arr3_S2(&x); let y = ffi::c_echo_mut_arr3_S2(x, k); ensure!(addr() == a && ad_mut_arr3_S2(&y) == a && ck_mut_arr3_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_mut_arr3_S2(200, mk_mut_arr3_S2(k), -1.5, k, mk_mut_arr3_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_mut_arr3_S2(k); ensure!(o.c_m_mut_arr3_S2(x, k), "method"); }
  7 => { fn f(x: &mut [S2; 3], k: i32) -> &mut [S2; 3] { note(if ck_mut_arr3_S2(&x, k) { ad_mut_arr3_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_mut_arr3_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_mut_arr3_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_u8(mut x: &[u8], k: i32) -> bool { let a = ad_sl_u8(&x); let ok = ck_sl_u8(&x, k);  note(a); ok }
fn r_make_sl_u8(z: &u8, k: i32) -> &[u8] { let x = mk_sl_u8(k); note(ad_sl_u8(&x)); x }
fn r_try_sl_u8(z: &u8, k: i32, fail: bool) -> R<&[u8]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_u8(k); note(ad_sl_u8(&x)); Ok(x) }
fn r_echo_sl_u8(x: &[u8], k: i32) -> &[u8] { note(if ck_sl_u8(&x, k) { ad_sl_u8(&x) } else { 1 }); x }
fn r_mix_sl_u8(a: u8, x: &[u8], b: f64, k: i32, y: &[u8], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_u8(&x, k) && b == -1.5 && ck_sl_u8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_sl_u8(&self, x: &[u8], k: i32) -> bool { ck_S3(self, 2) && ck_sl_u8(&x, k) } }
unsafe fn run_sl_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_u8(k); let a = ad_sl_u8(&x); ensure!(ffi::c_take_sl_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_u8(&Z, k); ensure!(ck_sl_u8(&x, k) && addr() == ad_sl_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_u8(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_u8(&x, k) && addr() == ad_sl_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_u8(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_u8(k); let a = ad_sl_u8(&x); let y = ffi::c_echo_sl_u8(x, k); ensure!(addr() == a && ad_sl_u8(&y) == a && ck_sl_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_u8(200, mk_sl_u8(k), -1.5, k, mk_sl_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_sl_u8(k); ensure!(o.c_m_sl_u8(x, k), "method"); }
  7 => { fn f(x: &[u8], k: i32) -> &[u8] { note(if ck_sl_u8(&x, k) { ad_sl_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_u16(mut x: &[u16], k: i32) -> bool { let a = ad_sl_u16(&x); let ok = ck_sl_u16(&x, k);  note(a); ok }
fn r_make_sl_u16(z: &u8, k: i32) -> &[u16] { let x = mk_sl_u16(k); note(ad_sl_u16(&x)); x }
fn r_try_sl_u16(z: &u8, k: i32, fail: bool) -> R<&[u16]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_u16(k); note(ad_sl_u16(&x)); Ok(x) }
fn r_echo_sl_u16(x: &[u16], k: i32) -> &[u16] { note(if ck_sl_u16(&x, k) { ad_sl_u16(&x) } else { 1 }); x }
fn r_mix_sl_u16(a: u8, x: &[u16], b: f64, k: i32, y: &[u16], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_u16(&x, k) && b == -1.5 && ck_sl_u16(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_sl_u16(&mut self, x: &[u16], k: i32) -> bool { ck_S3(self, 2) && ck_sl_u16(&x, k) } }
unsafe fn run_sl_u16(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_u16(k); let a = ad_sl_u16(&x); ensure!(ffi::c_take_sl_u16(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_u16(&Z, k); ensure!(ck_sl_u16(&x, k) && addr() == ad_sl_u16(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_u16(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_u16(&x, k) && addr() == ad_sl_u16(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_u16(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_u16(k); let a = ad_sl_u16(&x); let y = ffi::c_echo_sl_u16(x, k); ensure!(addr() == a && ad_sl_u16(&y) == a && ck_sl_u16(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_u16(200, mk_sl_u16(k), -1.5, k, mk_sl_u16((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_sl_u16(k); ensure!(o.c_m_sl_u16(x, k), "method"); }
  7 => { fn f(x: &[u16], k: i32) -> &[u16] { note(if ck_sl_u16(&x, k) { ad_sl_u16(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_u16(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_u16(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_i32(mut x: &[i32], k: i32) -> bool { let a = ad_sl_i32(&x); let ok = ck_sl_i32(&x, k);  note(a); ok }
fn r_make_sl_i32(z: &u8, k: i32) -> &[i32] { let x = mk_sl_i32(k); note(ad_sl_i32(&x)); x }
fn r_try_sl_i32(z: &u8, k: i32, fail: bool) -> R<&[i32]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_i32(k); note(ad_sl_i32(&x)); Ok(x) }
fn r_echo_sl_i32(x: &[i32], k: i32) -> &[i32] { note(if ck_sl_i32(&x, k) { ad_sl_i32(&x) } else { 1 }); x }
fn r_mix_sl_i32(a: u8, x: &[i32], b: f64, k: i32, y: &[i32], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_i32(&x, k) && b == -1.5 && ck_sl_i32(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_sl_i32(&self, x: &[i32], k: i32) -> bool { ck_RObj(self, 2) && ck_sl_i32(&x, k) } }
unsafe fn run_sl_i32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_i32(k); let a = ad_sl_i32(&x); ensure!(ffi::c_take_sl_i32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_i32(&Z, k); ensure!(ck_sl_i32(&x, k) && addr() == ad_sl_i32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_i32(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_i32(&x, k) && addr() == ad_sl_i32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_i32(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_i32(k); let a = ad_sl_i32(&x); let y = ffi::c_echo_sl_i32(x, k); ensure!(addr() == a && ad_sl_i32(&y) == a && ck_sl_i32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_i32(200, mk_sl_i32(k), -1.5, k, mk_sl_i32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_sl_i32(k); ensure!(o.c_m_sl_i32(x, k), "method"); }
  7 => { fn f(x: &[i32], k: i32) -> &[i32] { note(if ck_sl_i32(&x, k) { ad_sl_i32(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_i32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_i32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_f64(mut x: &[f64], k: i32) -> bool { let a = ad_sl_f64(&x); let ok = ck_sl_f64(&x, k);  note(a); ok }
fn r_make_sl_f64(z: &u8, k: i32) -> &[f64] { let x = mk_sl_f64(k); note(ad_sl_f64(&x)); x }
fn r_try_sl_f64(z: &u8, k: i32, fail: bool) -> R<&[f64]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_f64(k); note(ad_sl_f64(&x)); Ok(x) }
fn r_echo_sl_f64(x: &[f64], k: i32) -> &[f64] { note(if ck_sl_f64(&x, k) { ad_sl_f64(&x) } else { 1 }); x }
fn r_mix_sl_f64(a: u8, x: &[f64], b: f64, k: i32, y: &[f64], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_f64(&x, k) && b == -1.5 && ck_sl_f64(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_sl_f64(&mut self, x: &[f64], k: i32) -> bool { ck_RObj(self, 2) && ck_sl_f64(&x, k) } }
unsafe fn run_sl_f64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_f64(k); let a = ad_sl_f64(&x); ensure!(ffi::c_take_sl_f64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_f64(&Z, k); ensure!(ck_sl_f64(&x, k) && addr() == ad_sl_f64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_f64(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_f64(&x, k) && addr() == ad_sl_f64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_f64(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_f64(k); let a = ad_sl_f64(&x); let y = ffi::c_echo_sl_f64(x, k); ensure!(addr() == a && ad_sl_f64(&y) == a && ck_sl_f64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_f64(200, mk_sl_f64(k), -1.5, k, mk_sl_f64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_sl_f64(k); ensure!(o.c_m_sl_f64(x, k), "method"); }
  7 => { fn f(x: &[f64], k: i32) -> &[f64] { note(if ck_sl_f64(&x, k) { ad_sl_f64(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_f64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_f64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_bool(mut x: &[bool], k: i32) -> bool { let a = ad_sl_bool(&x); let ok = ck_sl_bool(&x, k);  note(a); ok }
fn r_make_sl_bool(z: &u8, k: i32) -> &[bool] { let x = mk_sl_bool(k); note(ad_sl_bool(&x)); x }
fn r_try_sl_bool(z: &u8, k: i32, fail: bool) -> R<&[bool]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_bool(k); note(ad_sl_bool(&x)); Ok(x) }
fn r_echo_sl_bool(x: &[bool], k: i32) -> &[bool] { note(if ck_sl_bool(&x, k) { ad_sl_bool(&x) } else { 1 }); x }
fn r_mix_sl_bool(a: u8, x: &[bool], b: f64, k: i32, y: &[bool], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_bool(&x, k) && b == -1.5 && ck_sl_bool(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_sl_bool(&self, x: &[bool], k: i32) -> bool { ck_S3(self, 2) && ck_sl_bool(&x, k) } }
unsafe fn run_sl_bool(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_bool(k); let a = ad_sl_bool(&x); ensure!(ffi::c_take_sl_bool(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_bool(&Z, k); ensure!(ck_sl_bool(&x, k) && addr() == ad_sl_bool(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_bool(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_bool(&x, k) && addr() == ad_sl_bool(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_bool(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_bool(k); let a = ad_sl_bool(&x); let y = ffi::c_echo_sl_bool(x, k); ensure!(addr() == a && ad_sl_bool(&y) == a && ck_sl_bool(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_bool(200, mk_sl_bool(k), -1.5, k, mk_sl_bool((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_sl_bool(k); ensure!(o.c_m_sl_bool(x, k), "method"); }
  7 => { fn f(x: &[bool], k: i32) -> &[bool] { note(if ck_sl_bool(&x, k) { ad_sl_bool(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_bool(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_bool(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_usize(mut x: &[usize], k: i32) -> bool { let a = ad_sl_usize(&x); let ok = ck_sl_usize(&x, k);  note(a); ok }
fn r_make_sl_usize(z: &u8, k: i32) -> &[usize] { let x = mk_sl_usize(k); note(ad_sl_usize(&x)); x }
fn r_try_sl_usize(z: &u8, k: i32, fail: bool) -> R<&[usize]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_usize(k); note(ad_sl_usize(&x)); Ok(x) }
fn r_echo_sl_usize(x: &[usize], k: i32) -> &[usize] { note(if ck_sl_usize(&x, k) { ad_sl_usize(&x) } else { 1 }); x }
fn r_mix_sl_usize(a: u8, x: &[usize], b: f64, k: i32, y: &[usize], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_usize(&x, k) && b == -1.5 && ck_sl_usize(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_sl_usize(&mut self, x: &[usize], k: i32) -> bool { ck_S3(self, 2) && ck_sl_usize(&x, k) } }
unsafe fn run_sl_usize(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_usize(k); let a = ad_sl_usize(&x); ensure!(ffi::c_take_sl_usize(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_usize(&Z, k); ensure!(ck_sl_usize(&x, k) && addr() == ad_sl_usize(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_usize(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_usize(&x, k) && addr() == ad_sl_usize(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_usize(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_usize(k); let a = ad_sl_usize(&x); let y = ffi::c_echo_sl_usize(x, k); ensure!(addr() == a && ad_sl_usize(&y) == a && ck_sl_usize(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_usize(200, mk_sl_usize(k), -1.5, k, mk_sl_usize((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_sl_usize(k); ensure!(o.c_m_sl_usize(x, k), "method"); }
  7 => { fn f(x: &[usize], k: i32) -> &[usize] { note(if ck_sl_usize(&x, k) { ad_sl_usize(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_usize(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_usize(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_c_char(mut x: &[c_char], k: i32) -> bool { let a = ad_sl_c_char(&x); let ok = ck_sl_c_char(&x, k);  note(a); ok }
fn r_make_sl_c_char(z: &u8, k: i32) -> &[c_char] { let x = mk_sl_c_char(k); note(ad_sl_c_char(&x)); x }
fn r_try_sl_c_char(z: &u8, k: i32, fail: bool) -> R<&[c_char]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_c_char(k); note(ad_sl_c_char(&x)); Ok(x) }
fn r_echo_sl_c_char(x: &[c_char], k: i32) -> &[c_char] { note(if ck_sl_c_char(&x, k) { ad_sl_c_char(&x) } else { 1 }); x }
fn r_mix_sl_c_char(a: u8, x: &[c_char], b: f64, k: i32, y: &[c_char], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_c_char(&x, k) && b == -1.5 && ck_sl_c_char(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_sl_c_char(&self, x: &[c_char], k: i32) -> bool { ck_RObj(self, 2) && ck_sl_c_char(&x, k) } }
unsafe fn run_sl_c_char(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_c_char(k); let a = ad_sl_c_char(&x); ensure!(ffi::c_take_sl_c_char(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_c_char(&Z, k); ensure!(ck_sl_c_char(&x, k) && addr() == ad_sl_c_char(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_c_char(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_c_char(&x, k) && addr() == ad_sl_c_char(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_c_char(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_c_char(k); let a = ad_sl_c_char(&x); let y = ffi::c_echo_sl_c_char(x, k); ensure!(addr() == a && ad_sl_c_char(&y) == a && ck_sl_c_char(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_c_char(200, mk_sl_c_char(k), -1.5, k, mk_sl_c_char((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_sl_c_char(k); ensure!(o.c_m_sl_c_char(x, k), "method"); }
  7 => { fn f(x: &[c_char], k: i32) -> &[c_char] { note(if ck_sl_c_char(&x, k) { ad_sl_c_char(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_c_char(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_c_char(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_String(mut x: &[String], k: i32) -> bool { let a = ad_sl_String(&x); let ok = ck_sl_String(&x, k);  note(a); ok }
fn r_make_sl_String(z: &u8, k: i32) -> &[String] { let x = mk_sl_String(k); note(ad_sl_String(&x)); x }
fn r_try_sl_String(z: &u8, k: i32, fail: bool) -> R<&[String]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_String(k); note(ad_sl_String(&x)); Ok(x) }
fn r_echo_sl_String(x: &[String], k: i32) -> &[String] { note(if ck_sl_String(&x, k) { ad_sl_String(&x) } else { 1 }); x }
fn r_mix_sl_String(a: u8, x: &[String], b: f64, k: i32, y: &[String], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_String(&x, k) && b == -1.5 && ck_sl_String(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_sl_String(&mut self, x: &[String], k: i32) -> bool { ck_RObj(self, 2) && ck_sl_String(&x, k) } }
unsafe fn run_sl_String(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_String(k); let a = ad_sl_String(&x); ensure!(ffi::c_take_sl_String(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_String(&Z, k); ensure!(ck_sl_String(&x, k) && addr() == ad_sl_String(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_String(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_String(&x, k) && addr() == ad_sl_String(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_String(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_String(k); let a = ad_sl_String(&x); let y = ffi::c_echo_sl_String(x, k); ensure!(addr() == a && ad_sl_String(&y) == a && ck_sl_String(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_String(200, mk_sl_String(k), -1.5, k, mk_sl_String((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_sl_String(k); ensure!(o.c_m_sl_String(x, k), "method"); }
  7 => { fn f(x: &[String], k: i32) -> &[String] { note(if ck_sl_String(&x, k) { ad_sl_String(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_String(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_String(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_S2(mut x: &[S2], k: i32) -> bool { let a = ad_sl_S2(&x); let ok = ck_sl_S2(&x, k);  note(a); ok }
fn r_make_sl_S2(z: &u8, k: i32) -> &[S2] { let x = mk_sl_S2(k); note(ad_sl_S2(&x)); x }
fn r_try_sl_S2(z: &u8, k: i32, fail: bool) -> R<&[S2]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_S2(k); note(ad_sl_S2(&x)); Ok(x) }
fn r_echo_sl_S2(x: &[S2], k: i32) -> &[S2] { note(if ck_sl_S2(&x, k) { ad_sl_S2(&x) } else { 1 }); x }
fn r_mix_sl_S2(a: u8, x: &[S2], b: f64, k: i32, y: &[S2], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_S2(&x, k) && b == -1.5 && ck_sl_S2(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_sl_S2(&self, x: &[S2], k: i32) -> bool { ck_S3(self, 2) && ck_sl_S2(&x, k) } }
unsafe fn run_sl_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_S2(k); let a = ad_sl_S2(&x); ensure!(ffi::c_take_sl_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_S2(&Z, k); ensure!(ck_sl_S2(&x, k) && addr() == ad_sl_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_S2(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_S2(&x, k) && addr() == ad_sl_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_S2(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_S2(k); let a = ad_sl_S2(&x); let y = ffi::c_echo_sl_S2(x, k); ensure!(addr() == a && ad_sl_S2(&y) == a && ck_sl_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_S2(200, mk_sl_S2(k), -1.5, k, mk_sl_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_sl_S2(k); ensure!(o.c_m_sl_S2(x, k), "method"); }
  7 => { fn f(x: &[S2], k: i32) -> &[S2] { note(if ck_sl_S2(&x, k) { ad_sl_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_S7(mut x: &[S7], k: i32) -> bool { let a = ad_sl_S7(&x); let ok = ck_sl_S7(&x, k);  note(a); ok }
fn r_make_sl_S7(z: &u8, k: i32) -> &[S7] { let x = mk_sl_S7(k); note(ad_sl_S7(&x)); x }
fn r_try_sl_S7(z: &u8, k: i32, fail: bool) -> R<&[S7]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_S7(k); note(ad_sl_S7(&x)); Ok(x) }
fn r_echo_sl_S7(x: &[S7], k: i32) -> &[S7] { note(if ck_sl_S7(&x, k) { ad_sl_S7(&x) } else { 1 }); x }
fn r_mix_sl_S7(a: u8, x: &[S7], b: f64, k: i32, y: &[S7], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_S7(&x, k) && b == -1.5 && ck_sl_S7(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_sl_S7(&mut self, x: &[S7], k: i32) -> bool { ck_S3(self, 2) && ck_sl_S7(&x, k) } }
unsafe fn run_sl_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_S7(k); let a = ad_sl_S7(&x); ensure!(ffi::c_take_sl_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_S7(&Z, k); ensure!(ck_sl_S7(&x, k) && addr() == ad_sl_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_S7(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_S7(&x, k) && addr() == ad_sl_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_S7(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_S7(k); let a = ad_sl_S7(&x); let y = ffi::c_echo_sl_S7(x, k); ensure!(addr() == a && ad_sl_S7(&y) == a && ck_sl_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_S7(200, mk_sl_S7(k), -1.5, k, mk_sl_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_sl_S7(k); ensure!(o.c_m_sl_S7(x, k), "method"); }
  7 => { fn f(x: &[S7], k: i32) -> &[S7] { note(if ck_sl_S7(&x, k) { ad_sl_S7(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_S7(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_Ei8(mut x: &[Ei8], k: i32) -> bool { let a = ad_sl_Ei8(&x); let ok = ck_sl_Ei8(&x, k);  note(a); ok }
fn r_make_sl_Ei8(z: &u8, k: i32) -> &[Ei8] { let x = mk_sl_Ei8(k); note(ad_sl_Ei8(&x)); x }
fn r_try_sl_Ei8(z: &u8, k: i32, fail: bool) -> R<&[Ei8]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_Ei8(k); note(ad_sl_Ei8(&x)); Ok(x) }
fn r_echo_sl_Ei8(x: &[Ei8], k: i32) -> &[Ei8] { note(if ck_sl_Ei8(&x, k) { ad_sl_Ei8(&x) } else { 1 }); x }
fn r_mix_sl_Ei8(a: u8, x: &[Ei8], b: f64, k: i32, y: &[Ei8], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_Ei8(&x, k) && b == -1.5 && ck_sl_Ei8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_sl_Ei8(&self, x: &[Ei8], k: i32) -> bool { ck_RObj(self, 2) && ck_sl_Ei8(&x, k) } }
unsafe fn run_sl_Ei8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_Ei8(k); let a = ad_sl_Ei8(&x); ensure!(ffi::c_take_sl_Ei8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_Ei8(&Z, k); ensure!(ck_sl_Ei8(&x, k) && addr() == ad_sl_Ei8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_Ei8(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_Ei8(&x, k) && addr() == ad_sl_Ei8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_Ei8(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_Ei8(k); let a = ad_sl_Ei8(&x); let y = ffi::c_echo_sl_Ei8(x, k); ensure!(addr() == a && ad_sl_Ei8(&y) == a && ck_sl_Ei8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_Ei8(200, mk_sl_Ei8(k), -1.5, k, mk_sl_Ei8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_sl_Ei8(k); ensure!(o.c_m_sl_Ei8(x, k), "method"); }
  7 => { fn f(x: &[Ei8], k: i32) -> &[Ei8] { note(if ck_sl_Ei8(&x, k) { ad_sl_Ei8(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_Ei8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_Ei8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_TrivA(mut x: &[TrivA], k: i32) -> bool { let a = ad_sl_TrivA(&x); let ok = ck_sl_TrivA(&x, k);  note(a); ok }
fn r_make_sl_TrivA(z: &u8, k: i32) -> &[TrivA] { let x = mk_sl_TrivA(k); note(ad_sl_TrivA(&x)); x }
fn r_try_sl_TrivA(z: &u8, k: i32, fail: bool) -> R<&[TrivA]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_TrivA(k); note(ad_sl_TrivA(&x)); Ok(x) }
fn r_echo_sl_TrivA(x: &[TrivA], k: i32) -> &[TrivA] { note(if ck_sl_TrivA(&x, k) { ad_sl_TrivA(&x) } else { 1 }); x }
fn r_mix_sl_TrivA(a: u8, x: &[TrivA], b: f64, k: i32, y: &[TrivA], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_TrivA(&x, k) && b == -1.5 && ck_sl_TrivA(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_sl_TrivA(&mut self, x: &[TrivA], k: i32) -> bool { ck_RObj(self, 2) && ck_sl_TrivA(&x, k) } }
unsafe fn run_sl_TrivA(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_TrivA(k); let a = ad_sl_TrivA(&x); ensure!(ffi::c_take_sl_TrivA(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_TrivA(&Z, k); ensure!(ck_sl_TrivA(&x, k) && addr() == ad_sl_TrivA(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_TrivA(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_TrivA(&x, k) && addr() == ad_sl_TrivA(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_TrivA(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_TrivA(k); let a = ad_sl_TrivA(&x); let y = ffi::c_echo_sl_TrivA(x, k); ensure!(addr() == a && ad_sl_TrivA(&y) == a && ck_sl_TrivA(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_TrivA(200, mk_sl_TrivA(k), -1.5, k, mk_sl_TrivA((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_sl_TrivA(k); ensure!(o.c_m_sl_TrivA(x, k), "method"); }
  7 => { fn f(x: &[TrivA], k: i32) -> &[TrivA] { note(if ck_sl_TrivA(&x, k) { ad_sl_TrivA(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_TrivA(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_TrivA(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_RObj(mut x: &[RObj], k: i32) -> bool { let a = ad_sl_RObj(&x); let ok = ck_sl_RObj(&x, k);  note(a); ok }
fn r_make_sl_RObj(z: &u8, k: i32) -> &[RObj] { let x = mk_sl_RObj(k); note(ad_sl_RObj(&x)); x }
fn r_try_sl_RObj(z: &u8, k: i32, fail: bool) -> R<&[RObj]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_RObj(k); note(ad_sl_RObj(&x)); Ok(x) }
fn r_echo_sl_RObj(x: &[RObj], k: i32) -> &[RObj] { note(if ck_sl_RObj(&x, k) { ad_sl_RObj(&x) } else { 1 }); x }
fn r_mix_sl_RObj(a: u8, x: &[RObj], b: f64, k: i32, y: &[RObj], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_RObj(&x, k) && b == -1.5 && ck_sl_RObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_sl_RObj(&self, x: &[RObj], k: i32) -> bool { ck_S3(self, 2) && ck_sl_RObj(&x, k) } }
unsafe fn run_sl_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_RObj(k); let a = ad_sl_RObj(&x); ensure!(ffi::c_take_sl_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_RObj(&Z, k); ensure!(ck_sl_RObj(&x, k) && addr() == ad_sl_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_RObj(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_RObj(&x, k) && addr() == ad_sl_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_RObj(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_RObj(k); let a = ad_sl_RObj(&x); let y = ffi::c_echo_sl_RObj(x, k); ensure!(addr() == a && ad_sl_RObj(&y) == a && ck_sl_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_RObj(200, mk_sl_RObj(k), -1.5, k, mk_sl_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_sl_RObj(k); ensure!(o.c_m_sl_RObj(x, k), "method"); }
  7 => { fn f(x: &[RObj], k: i32) -> &[RObj] { note(if ck_sl_RObj(&x, k) { ad_sl_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_Box_RObj(mut x: &[Box<RObj>], k: i32) -> bool { let a = ad_sl_Box_RObj(&x); let ok = ck_sl_Box_RObj(&x, k);  note(a); ok }
fn r_make_sl_Box_RObj(z: &u8, k: i32) -> &[Box<RObj>] { let x = mk_sl_Box_RObj(k); note(ad_sl_Box_RObj(&x)); x }
fn r_try_sl_Box_RObj(z: &u8, k: i32, fail: bool) -> R<&[Box<RObj>]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_Box_RObj(k); note(ad_sl_Box_RObj(&x)); Ok(x) }
fn r_echo_sl_Box_RObj(x: &[Box<RObj>], k: i32) -> &[Box<RObj>] { note(if ck_sl_Box_RObj(&x, k) { ad_sl_Box_RObj(&x) } else { 1 }); x }
fn r_mix_sl_Box_RObj(a: u8, x: &[Box<RObj>], b: f64, k: i32, y: &[Box<RObj>], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_Box_RObj(&x, k) && b == -1.5 && ck_sl_Box_RObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_sl_Box_RObj(&mut self, x: &[Box<RObj>], k: i32) -> bool { ck_S3(self, 2) && ck_sl_Box_RObj(&x, k) } }
unsafe fn run_sl_Box_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_Box_RObj(k); let a = ad_sl_Box_RObj(&x); ensure!(ffi::c_take_sl_Box_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_Box_RObj(&Z, k); ensure!(ck_sl_Box_RObj(&x, k) && addr() == ad_sl_Box_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_Box_RObj(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_Box_RObj(&x, k) && addr() == ad_sl_Box_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_Box_RObj(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_Box_RObj(k); let a = ad_sl_Box_RObj(&x); let y = ffi::c_echo_sl_Box_RObj(x, k); ensure!(addr() == a && ad_sl_Box_RObj(&y) == a && ck_sl_Box_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_Box_RObj(200, mk_sl_Box_RObj(k), -1.5, k, mk_sl_Box_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_sl_Box_RObj(k); ensure!(o.c_m_sl_Box_RObj(x, k), "method"); }
  7 => { fn f(x: &[Box<RObj>], k: i32) -> &[Box<RObj>] { note(if ck_sl_Box_RObj(&x, k) { ad_sl_Box_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_Box_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_Box_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_UniquePtr_CObj(mut x: &[UniquePtr<CObj>], k: i32) -> bool { let a = ad_sl_UniquePtr_CObj(&x); let ok = ck_sl_UniquePtr_CObj(&x, k);  note(a); ok }
fn r_make_sl_UniquePtr_CObj(z: &u8, k: i32) -> &[UniquePtr<CObj>] { let x = mk_sl_UniquePtr_CObj(k); note(ad_sl_UniquePtr_CObj(&x)); x }
fn r_try_sl_UniquePtr_CObj(z: &u8, k: i32, fail: bool) -> R<&[UniquePtr<CObj>]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_UniquePtr_CObj(k); note(ad_sl_UniquePtr_CObj(&x)); Ok(x) }
fn r_echo_sl_UniquePtr_CObj(x: &[UniquePtr<CObj>], k: i32) -> &[UniquePtr<CObj>] { note(if ck_sl_UniquePtr_CObj(&x, k) { ad_sl_UniquePtr_CObj(&x) } else { 1 }); x }
fn r_mix_sl_UniquePtr_CObj(a: u8, x: &[UniquePtr<CObj>], b: f64, k: i32, y: &[UniquePtr<CObj>], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_UniquePtr_CObj(&x, k) && b == -1.5 && ck_sl_UniquePtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_sl_UniquePtr_CObj(&self, x: &[UniquePtr<CObj>], k: i32) -> bool { ck_RObj(self, 2) && ck_sl_UniquePtr_CObj(&x, k) } }
unsafe fn run_sl_UniquePtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_UniquePtr_CObj(k); let a = ad_sl_UniquePtr_CObj(&x); ensure!(ffi::c_take_sl_UniquePtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_UniquePtr_CObj(&Z, k); ensure!(ck_sl_UniquePtr_CObj(&x, k) && addr() == ad_sl_UniquePtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_UniquePtr_CObj(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_UniquePtr_CObj(&x, k) && addr() == ad_sl_UniquePtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_UniquePtr_CObj(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_UniquePtr_CObj(k); let a = ad_sl_UniquePtr_CObj(&x); let y = ffi::c_echo_sl_UniquePtr_CObj(x, k); ensure!(addr() == a && ad_sl_UniquePtr_CObj(&y) == a && ck_sl_UniquePtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_UniquePtr_CObj(200, mk_sl_UniquePtr_CObj(k), -1.5, k, mk_sl_UniquePtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_sl_UniquePtr_CObj(k); ensure!(o.c_m_sl_UniquePtr_CObj(x, k), "method"); }
  7 => { fn f(x: &[UniquePtr<CObj>], k: i32) -> &[UniquePtr<CObj>] { note(if ck_sl_UniquePtr_CObj(&x, k) { ad_sl_UniquePtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_UniquePtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_UniquePtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_Vec_u8(mut x: &[Vec<u8>], k: i32) -> bool { let a = ad_sl_Vec_u8(&x); let ok = ck_sl_Vec_u8(&x, k);  note(a); ok }
fn r_make_sl_Vec_u8(z: &u8, k: i32) -> &[Vec<u8>] { let x = mk_sl_Vec_u8(k); note(ad_sl_Vec_u8(&x)); x }
fn r_try_sl_Vec_u8(z: &u8, k: i32, fail: bool) -> R<&[Vec<u8>]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_Vec_u8(k); note(ad_sl_Vec_u8(&x)); Ok(x) }
fn r_echo_sl_Vec_u8(x: &[Vec<u8>], k: i32) -> &[Vec<u8>] { note(if ck_sl_Vec_u8(&x, k) { ad_sl_Vec_u8(&x) } else { 1 }); x }
fn r_mix_sl_Vec_u8(a: u8, x: &[Vec<u8>], b: f64, k: i32, y: &[Vec<u8>], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_Vec_u8(&x, k) && b == -1.5 && ck_sl_Vec_u8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_sl_Vec_u8(&mut self, x: &[Vec<u8>], k: i32) -> bool { ck_RObj(self, 2) && ck_sl_Vec_u8(&x, k) } }
unsafe fn run_sl_Vec_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_Vec_u8(k); let a = ad_sl_Vec_u8(&x); ensure!(ffi::c_take_sl_Vec_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_Vec_u8(&Z, k); ensure!(ck_sl_Vec_u8(&x, k) && addr() == ad_sl_Vec_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_Vec_u8(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_Vec_u8(&x, k) && addr() == ad_sl_Vec_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_Vec_u8(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_Vec_u8(k); let a = ad_sl_Vec_u8(&x); let y = ffi::c_echo_sl_Vec_u8(x, k); ensure!(addr() == a && ad_sl_Vec_u8(&y) == a && ck_sl_Vec_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_Vec_u8(200, mk_sl_Vec_u8(k), -1.5, k, mk_sl_Vec_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_sl_Vec_u8(k); ensure!(o.c_m_sl_Vec_u8(x, k), "method"); }
  7 => { fn f(x: &[Vec<u8>], k: i32) -> &[Vec<u8>] { note(if ck_sl_Vec_u8(&x, k) { ad_sl_Vec_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_Vec_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_Vec_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_f32(mut x: &[f32], k: i32) -> bool { let a = ad_sl_f32(&x); let ok = ck_sl_f32(&x, k);  note(a); ok }
fn r_make_sl_f32(z: &u8, k: i32) -> &[f32] { let x = mk_sl_f32(k); note(ad_sl_f32(&x)); x }
fn r_try_sl_f32(z: &u8, k: i32, fail: bool) -> R<&[f32]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_f32(k); note(ad_sl_f32(&x)); Ok(x) }
fn r_echo_sl_f32(x: &[f32], k: i32) -> &[f32] { note(if ck_sl_f32(&x, k) { ad_sl_f32(&x) } else { 1 }); x }
fn r_mix_sl_f32(a: u8, x: &[f32], b: f64, k: i32, y: &[f32], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_f32(&x, k) && b == -1.5 && ck_sl_f32(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_sl_f32(&self, x: &[f32], k: i32) -> bool { ck_S3(self, 2) && ck_sl_f32(&x, k) } }
unsafe fn run_sl_f32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_f32(k); let a = ad_sl_f32(&x); ensure!(ffi::c_take_sl_f32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_f32(&Z, k); ensure!(ck_sl_f32(&x, k) && addr() == ad_sl_f32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_f32(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_f32(&x, k) && addr() == ad_sl_f32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_f32(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_f32(k); let a = ad_sl_f32(&x); let y = ffi::c_echo_sl_f32(x, k); ensure!(addr() == a && ad_sl_f32(&y) == a && ck_sl_f32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_f32(200, mk_sl_f32(k), -1.5, k, mk_sl_f32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_sl_f32(k); ensure!(o.c_m_sl_f32(x, k), "method"); }
  7 => { fn f(x: &[f32], k: i32) -> &[f32] { note(if ck_sl_f32(&x, k) { ad_sl_f32(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_f32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_f32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_isize(mut x: &[isize], k: i32) -> bool { let a = ad_sl_isize(&x); let ok = ck_sl_isize(&x, k);  note(a); ok }
fn r_make_sl_isize(z: &u8, k: i32) -> &[isize] { let x = mk_sl_isize(k); note(ad_sl_isize(&x)); x }
fn r_try_sl_isize(z: &u8, k: i32, fail: bool) -> R<&[isize]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_isize(k); note(ad_sl_isize(&x)); Ok(x) }
fn r_echo_sl_isize(x: &[isize], k: i32) -> &[isize] { note(if ck_sl_isize(&x, k) { ad_sl_isize(&x) } else { 1 }); x }
fn r_mix_sl_isize(a: u8, x: &[isize], b: f64, k: i32, y: &[isize], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_isize(&x, k) && b == -1.5 && ck_sl_isize(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_sl_isize(&mut self, x: &[isize], k: i32) -> bool { ck_S3(self, 2) && ck_sl_isize(&x, k) } }
unsafe fn run_sl_isize(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_isize(k); let a = ad_sl_isize(&x); ensure!(ffi::c_take_sl_isize(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_isize(&Z, k); ensure!(ck_sl_isize(&x, k) && addr() == ad_sl_isize(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_isize(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_isize(&x, k) && addr() == ad_sl_isize(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_isize(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_isize(k); let a = ad_sl_isize(&x); let y = ffi::c_echo_sl_isize(x, k); ensure!(addr() == a && ad_sl_isize(&y) == a && ck_sl_isize(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_isize(200, mk_sl_isize(k), -1.5, k, mk_sl_isize((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_sl_isize(k); ensure!(o.c_m_sl_isize(x, k), "method"); }
  7 => { fn f(x: &[isize], k: i32) -> &[isize] { note(if ck_sl_isize(&x, k) { ad_sl_isize(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_isize(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_isize(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_sl_arr4_u8(mut x: &[[u8; 4]], k: i32) -> bool { let a = ad_sl_arr4_u8(&x); let ok = ck_sl_arr4_u8(&x, k);  note(a); ok }
fn r_make_sl_arr4_u8(z: &u8, k: i32) -> &[[u8; 4]] { let x = mk_sl_arr4_u8(k); note(ad_sl_arr4_u8(&x)); x }
fn r_try_sl_arr4_u8(z: &u8, k: i32, fail: bool) -> R<&[[u8; 4]]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_sl_arr4_u8(k); note(ad_sl_arr4_u8(&x)); Ok(x) }
fn r_echo_sl_arr4_u8(x: &[[u8; 4]], k: i32) -> &[[u8; 4]] { note(if ck_sl_arr4_u8(&x, k) { ad_sl_arr4_u8(&x) } else { 1 }); x }
fn r_mix_sl_arr4_u8(a: u8, x: &[[u8; 4]], b: f64, k: i32, y: &[[u8; 4]], c: u16) -> R<bool> { Ok(a == 200 && ck_sl_arr4_u8(&x, k) && b == -1.5 && ck_sl_arr4_u8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_sl_arr4_u8(&self, x: &[[u8; 4]], k: i32) -> bool { ck_RObj(self, 2) && ck_sl_arr4_u8(&x, k) } }
unsafe fn run_sl_arr4_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_sl_arr4_u8(k); let a = ad_sl_arr4_u8(&x); ensure!(ffi::c_take_sl_arr4_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_sl_arr4_u8(&Z, k); ensure!(ck_sl_arr4_u8(&x, k) && addr() == ad_sl_arr4_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_sl_arr4_u8(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_sl_arr4_u8(&x, k) && addr() == ad_sl_arr4_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_sl_arr4_u8(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_sl_arr4_u8(k); let a = ad_sl_arr4_u8(&x); let y = ffi::c_echo_sl_arr4_u8(x, k); ensure!(addr() == a && ad_sl_arr4_u8(&y) == a && ck_sl_arr4_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_sl_arr4_u8(200, mk_sl_arr4_u8(k), -1.5, k, mk_sl_arr4_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_sl_arr4_u8(k); ensure!(o.c_m_sl_arr4_u8(x, k), "method"); }
  7 => { fn f(x: &[[u8; 4]], k: i32) -> &[[u8; 4]] { note(if ck_sl_arr4_u8(&x, k) { ad_sl_arr4_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_sl_arr4_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_sl_arr4_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_slm_u8(mut x: &mut [u8], k: i32) -> bool { let a = ad_slm_u8(&x); let ok = ck_slm_u8(&x, k); { let x: &mut [u8] = x; let k = (k + 1) & 3; for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; *x = mk_u8(k); } } note(a); ok }
fn r_make_slm_u8(z: &mut u8, k: i32) -> &mut [u8] { let x = mk_slm_u8(k); note(ad_slm_u8(&x)); x }
fn r_try_slm_u8(z: &mut u8, k: i32, fail: bool) -> R<&mut [u8]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_slm_u8(k); note(ad_slm_u8(&x)); Ok(x) }
fn r_echo_slm_u8(x: &mut [u8], k: i32) -> &mut [u8] { note(if ck_slm_u8(&x, k) { ad_slm_u8(&x) } else { 1 }); x }
fn r_mix_slm_u8(a: u8, x: &mut [u8], b: f64, k: i32, y: &mut [u8], c: u16) -> R<bool> { Ok(a == 200 && ck_slm_u8(&x, k) && b == -1.5 && ck_slm_u8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_slm_u8(&mut self, x: &mut [u8], k: i32) -> bool { ck_RObj(self, 2) && ck_slm_u8(&x, k) } }
unsafe fn run_slm_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_slm_u8(k); let a = ad_slm_u8(&x); ensure!(ffi::c_take_slm_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(rp_sl_u8(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_u8(v, (k + 1 + i as i32) & 3)), "mutation not seen"); }
  1 => { let x = ffi::c_make_slm_u8(&mut Z, k); ensure!(ck_slm_u8(&x, k) && addr() == ad_slm_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_slm_u8(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_slm_u8(&x, k) && addr() == ad_slm_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_slm_u8(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_slm_u8(k); let a = ad_slm_u8(&x); let y = ffi::c_echo_slm_u8(x, k); ensure!(addr() == a && ad_slm_u8(&y) == a && ck_slm_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_slm_u8(200, mk_slm_u8(k), -1.5, k, mk_slm_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_slm_u8(k); ensure!(o.c_m_slm_u8(x, k), "method"); }
  7 => { fn f(x: &mut [u8], k: i32) -> &mut [u8] { note(if ck_slm_u8(&x, k) { ad_slm_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_slm_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_slm_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_slm_i64(mut x: &mut [i64], k: i32) -> bool { let a = ad_slm_i64(&x); let ok = ck_slm_i64(&x, k); { let x: &mut [i64] = x; let k = (k + 1) & 3; for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; *x = mk_i64(k); } } note(a); ok }
fn r_make_slm_i64(z: &mut u8, k: i32) -> &mut [i64] { let x = mk_slm_i64(k); note(ad_slm_i64(&x)); x }
fn r_try_slm_i64(z: &mut u8, k: i32, fail: bool) -> R<&mut [i64]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_slm_i64(k); note(ad_slm_i64(&x)); Ok(x) }
fn r_echo_slm_i64(x: &mut [i64], k: i32) -> &mut [i64] { note(if ck_slm_i64(&x, k) { ad_slm_i64(&x) } else { 1 }); x }
fn r_mix_slm_i64(a: u8, x: &mut [i64], b: f64, k: i32, y: &mut [i64], c: u16) -> R<bool> { Ok(a == 200 && ck_slm_i64(&x, k) && b == -1.5 && ck_slm_i64(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_slm_i64(&self, x: &mut [i64], k: i32) -> bool { ck_S3(self, 2) && ck_slm_i64(&x, k) } }
unsafe fn run_slm_i64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_slm_i64(k); let a = ad_slm_i64(&x); ensure!(ffi::c_take_slm_i64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(rp_sl_i64(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_i64(v, (k + 1 + i as i32) & 3)), "mutation not seen"); }
  1 => { let x = ffi::c_make_slm_i64(&mut Z, k); ensure!(ck_slm_i64(&x, k) && addr() == ad_slm_i64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_slm_i64(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_slm_i64(&x, k) && addr() == ad_slm_i64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_slm_i64(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_slm_i64(k); let a = ad_slm_i64(&x); let y = ffi::c_echo_slm_i64(x, k); ensure!(addr() == a && ad_slm_i64(&y) == a && ck_slm_i64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_slm_i64(200, mk_slm_i64(k), -1.5, k, mk_slm_i64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_slm_i64(k); ensure!(o.c_m_slm_i64(x, k), "method"); }
  7 => { fn f(x: &mut [i64], k: i32) -> &mut [i64] { note(if ck_slm_i64(&x, k) { ad_slm_i64(&x) } else { 1 }); x } ensure!(ffi::c_cb_slm_i64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_slm_i64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_slm_f32(mut x: &mut [f32], k: i32) -> bool { let a = ad_slm_f32(&x); let ok = ck_slm_f32(&x, k); { let x: &mut [f32] = x; let k = (k + 1) & 3; for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; *x = mk_f32(k); } } note(a); ok }
fn r_make_slm_f32(z: &mut u8, k: i32) -> &mut [f32] { let x = mk_slm_f32(k); note(ad_slm_f32(&x)); x }
fn r_try_slm_f32(z: &mut u8, k: i32, fail: bool) -> R<&mut [f32]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_slm_f32(k); note(ad_slm_f32(&x)); Ok(x) }
fn r_echo_slm_f32(x: &mut [f32], k: i32) -> &mut [f32] { note(if ck_slm_f32(&x, k) { ad_slm_f32(&x) } else { 1 }); x }
fn r_mix_slm_f32(a: u8, x: &mut [f32], b: f64, k: i32, y: &mut [f32], c: u16) -> R<bool> { Ok(a == 200 && ck_slm_f32(&x, k) && b == -1.5 && ck_slm_f32(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_slm_f32(&mut self, x: &mut [f32], k: i32) -> bool { ck_S3(self, 2) && ck_slm_f32(&x, k) } }
unsafe fn run_slm_f32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_slm_f32(k); let a = ad_slm_f32(&x); ensure!(ffi::c_take_slm_f32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(rp_sl_f32(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_f32(v, (k + 1 + i as i32) & 3)), "mutation not seen"); }
  1 => { let x = ffi::c_make_slm_f32(&mut Z, k); ensure!(ck_slm_f32(&x, k) && addr() == ad_slm_f32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_slm_f32(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_slm_f32(&x, k) && addr() == ad_slm_f32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_slm_f32(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_slm_f32(k); let a = ad_slm_f32(&x); let y = ffi::c_echo_slm_f32(x, k); ensure!(addr() == a && ad_slm_f32(&y) == a && ck_slm_f32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_slm_f32(200, mk_slm_f32(k), -1.5, k, mk_slm_f32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_slm_f32(k); ensure!(o.c_m_slm_f32(x, k), "method"); }
  7 => { fn f(x: &mut [f32], k: i32) -> &mut [f32] { note(if ck_slm_f32(&x, k) { ad_slm_f32(&x) } else { 1 }); x } ensure!(ffi::c_cb_slm_f32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_slm_f32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_slm_String(mut x: &mut [String], k: i32) -> bool { let a = ad_slm_String(&x); let ok = ck_slm_String(&x, k); { let x: &mut [String] = x; let k = (k + 1) & 3; for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; *x = mk_String(k); } } note(a); ok }
fn r_make_slm_String(z: &mut u8, k: i32) -> &mut [String] { let x = mk_slm_String(k); note(ad_slm_String(&x)); x }
fn r_try_slm_String(z: &mut u8, k: i32, fail: bool) -> R<&mut [String]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_slm_String(k); note(ad_slm_String(&x)); Ok(x) }
fn r_echo_slm_String(x: &mut [String], k: i32) -> &mut [String] { note(if ck_slm_String(&x, k) { ad_slm_String(&x) } else { 1 }); x }
fn r_mix_slm_String(a: u8, x: &mut [String], b: f64, k: i32, y: &mut [String], c: u16) -> R<bool> { Ok(a == 200 && ck_slm_String(&x, k) && b == -1.5 && ck_slm_String(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_slm_String(&self, x: &mut [String], k: i32) -> bool { ck_RObj(self, 2) && ck_slm_String(&x, k) } }
unsafe fn run_slm_String(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_slm_String(k); let a = ad_slm_String(&x); ensure!(ffi::c_take_slm_String(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(rp_sl_String(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_String(v, (k + 1 + i as i32) & 3)), "mutation not seen"); }
  1 => { let x = ffi::c_make_slm_String(&mut Z, k); ensure!(ck_slm_String(&x, k) && addr() == ad_slm_String(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_slm_String(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_slm_String(&x, k) && addr() == ad_slm_String(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_slm_String(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_slm_String(k); let a = ad_slm_String(&x); let y = ffi::c_echo_slm_String(x, k); ensure!(addr() == a && ad_slm_String(&y) == a && ck_slm_String(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_slm_String(200, mk_slm_String(k), -1.5, k, mk_slm_String((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_slm_String(k); ensure!(o.c_m_slm_String(x, k), "method"); }
  7 => { fn f(x: &mut [String], k: i32) -> &mut [String] { note(if ck_slm_String(&x, k) { ad_slm_String(&x) } else { 1 }); x } ensure!(ffi::c_cb_slm_String(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_slm_String(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_slm_S7(mut x: &mut [S7], k: i32) -> bool { let a = ad_slm_S7(&x); let ok = ck_slm_S7(&x, k); { let x: &mut [S7] = x; let k = (k + 1) & 3; for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; *x = mk_S7(k); } } note(a); ok }
fn r_make_slm_S7(z: &mut u8, k: i32) -> &mut [S7] { let x = mk_slm_S7(k); note(ad_slm_S7(&x)); x }
fn r_try_slm_S7(z: &mut u8, k: i32, fail: bool) -> R<&mut [S7]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_slm_S7(k); note(ad_slm_S7(&x)); Ok(x) }
fn r_echo_slm_S7(x: &mut [S7], k: i32) -> &mut [S7] { note(if ck_slm_S7(&x, k) { ad_slm_S7(&x) } else { 1 }); x }
fn r_mix_slm_S7(a: u8, x: &mut [S7], b: f64, k: i32, y: &mut [S7], c: u16) -> R<bool> { Ok(a == 200 && ck_slm_S7(&x, k) && b == -1.5 && ck_slm_S7(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_slm_S7(&mut self, x: &mut [S7], k: i32) -> bool { ck_RObj(self, 2) && ck_slm_S7(&x, k) } }
unsafe fn run_slm_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_slm_S7(k); let a = ad_slm_S7(&x); ensure!(ffi::c_take_slm_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(rp_sl_S7(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_S7(v, (k + 1 + i as i32) & 3)), "mutation not seen"); }
  1 => { let x = ffi::c_make_slm_S7(&mut Z, k); ensure!(ck_slm_S7(&x, k) && addr() == ad_slm_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_slm_S7(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_slm_S7(&x, k) && addr() == ad_slm_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_slm_S7(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_slm_S7(k); let a = ad_slm_S7(&x); let y = ffi::c_echo_slm_S7(x, k); ensure!(addr() == a && ad_slm_S7(&y) == a && ck_slm_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_slm_S7(200, mk_slm_S7(k), -1.5, k, mk_slm_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_slm_S7(k); ensure!(o.c_m_slm_S7(x, k), "method"); }
  7 => { fn f(x: &mut [S7], k: i32) -> &mut [S7] { note(if ck_slm_S7(&x, k) { ad_slm_S7(&x) } else { 1 }); x } ensure!(ffi::c_cb_slm_S7(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_slm_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_slm_RObj(mut x: &mut [RObj], k: i32) -> bool { let a = ad_slm_RObj(&x); let ok = ck_slm_RObj(&x, k); { let x: &mut [RObj] = x; let k = (k + 1) & 3; for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; x.r_set(k); } } note(a); ok }
fn r_make_slm_RObj(z: &mut u8, k: i32) -> &mut [RObj] { let x = mk_slm_RObj(k); note(ad_slm_RObj(&x)); x }
fn r_try_slm_RObj(z: &mut u8, k: i32, fail: bool) -> R<&mut [RObj]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_slm_RObj(k); note(ad_slm_RObj(&x)); Ok(x) }
fn r_echo_slm_RObj(x: &mut [RObj], k: i32) -> &mut [RObj] { note(if ck_slm_RObj(&x, k) { ad_slm_RObj(&x) } else { 1 }); x }
fn r_mix_slm_RObj(a: u8, x: &mut [RObj], b: f64, k: i32, y: &mut [RObj], c: u16) -> R<bool> { Ok(a == 200 && ck_slm_RObj(&x, k) && b == -1.5 && ck_slm_RObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_slm_RObj(&self, x: &mut [RObj], k: i32) -> bool { ck_S3(self, 2) && ck_slm_RObj(&x, k) } }
unsafe fn run_slm_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_slm_RObj(k); let a = ad_slm_RObj(&x); ensure!(ffi::c_take_slm_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(rp_sl_RObj(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_RObj(v, (k + 1 + i as i32) & 3)), "mutation not seen"); }
  1 => { let x = ffi::c_make_slm_RObj(&mut Z, k); ensure!(ck_slm_RObj(&x, k) && addr() == ad_slm_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_slm_RObj(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_slm_RObj(&x, k) && addr() == ad_slm_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_slm_RObj(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_slm_RObj(k); let a = ad_slm_RObj(&x); let y = ffi::c_echo_slm_RObj(x, k); ensure!(addr() == a && ad_slm_RObj(&y) == a && ck_slm_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_slm_RObj(200, mk_slm_RObj(k), -1.5, k, mk_slm_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_slm_RObj(k); ensure!(o.c_m_slm_RObj(x, k), "method"); }
  7 => { fn f(x: &mut [RObj], k: i32) -> &mut [RObj] { note(if ck_slm_RObj(&x, k) { ad_slm_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_slm_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_slm_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_slm_c_char(mut x: &mut [c_char], k: i32) -> bool { let a = ad_slm_c_char(&x); let ok = ck_slm_c_char(&x, k); { let x: &mut [c_char] = x; let k = (k + 1) & 3; for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; *x = mk_c_char(k); } } note(a); ok }
fn r_make_slm_c_char(z: &mut u8, k: i32) -> &mut [c_char] { let x = mk_slm_c_char(k); note(ad_slm_c_char(&x)); x }
fn r_try_slm_c_char(z: &mut u8, k: i32, fail: bool) -> R<&mut [c_char]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_slm_c_char(k); note(ad_slm_c_char(&x)); Ok(x) }
fn r_echo_slm_c_char(x: &mut [c_char], k: i32) -> &mut [c_char] { note(if ck_slm_c_char(&x, k) { ad_slm_c_char(&x) } else { 1 }); x }
fn r_mix_slm_c_char(a: u8, x: &mut [c_char], b: f64, k: i32, y: &mut [c_char], c: u16) -> R<bool> { Ok(a == 200 && ck_slm_c_char(&x, k) && b == -1.5 && ck_slm_c_char(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_slm_c_char(&mut self, x: &mut [c_char], k: i32) -> bool { ck_S3(self, 2) && ck_slm_c_char(&x, k) } }
unsafe fn run_slm_c_char(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_slm_c_char(k); let a = ad_slm_c_char(&x); ensure!(ffi::c_take_slm_c_char(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(rp_sl_c_char(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_c_char(v, (k + 1 + i as i32) & 3)), "mutation not seen"); }
  1 => { let x = ffi::c_make_slm_c_char(&mut Z, k); ensure!(ck_slm_c_char(&x, k) && addr() == ad_slm_c_char(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_slm_c_char(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_slm_c_char(&x, k) && addr() == ad_slm_c_char(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_slm_c_char(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_slm_c_char(k); let a = ad_slm_c_char(&x); let y = ffi::c_echo_slm_c_char(x, k); ensure!(addr() == a && ad_slm_c_char(&y) == a && ck_slm_c_char(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_slm_c_char(200, mk_slm_c_char(k), -1.5, k, mk_slm_c_char((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_slm_c_char(k); ensure!(o.c_m_slm_c_char(x, k), "method"); }
  7 => { fn f(x: &mut [c_char], k: i32) -> &mut [c_char] { note(if ck_slm_c_char(&x, k) { ad_slm_c_char(&x) } else { 1 }); x } ensure!(ffi::c_cb_slm_c_char(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_slm_c_char(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_slm_Eu16(mut x: &mut [Eu16], k: i32) -> bool { let a = ad_slm_Eu16(&x); let ok = ck_slm_Eu16(&x, k); { let x: &mut [Eu16] = x; let k = (k + 1) & 3; for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; *x = mk_Eu16(k); } } note(a); ok }
fn r_make_slm_Eu16(z: &mut u8, k: i32) -> &mut [Eu16] { let x = mk_slm_Eu16(k); note(ad_slm_Eu16(&x)); x }
fn r_try_slm_Eu16(z: &mut u8, k: i32, fail: bool) -> R<&mut [Eu16]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_slm_Eu16(k); note(ad_slm_Eu16(&x)); Ok(x) }
fn r_echo_slm_Eu16(x: &mut [Eu16], k: i32) -> &mut [Eu16] { note(if ck_slm_Eu16(&x, k) { ad_slm_Eu16(&x) } else { 1 }); x }
fn r_mix_slm_Eu16(a: u8, x: &mut [Eu16], b: f64, k: i32, y: &mut [Eu16], c: u16) -> R<bool> { Ok(a == 200 && ck_slm_Eu16(&x, k) && b == -1.5 && ck_slm_Eu16(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_slm_Eu16(&self, x: &mut [Eu16], k: i32) -> bool { ck_RObj(self, 2) && ck_slm_Eu16(&x, k) } }
unsafe fn run_slm_Eu16(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_slm_Eu16(k); let a = ad_slm_Eu16(&x); ensure!(ffi::c_take_slm_Eu16(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(rp_sl_Eu16(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_Eu16(v, (k + 1 + i as i32) & 3)), "mutation not seen"); }
  1 => { let x = ffi::c_make_slm_Eu16(&mut Z, k); ensure!(ck_slm_Eu16(&x, k) && addr() == ad_slm_Eu16(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_slm_Eu16(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_slm_Eu16(&x, k) && addr() == ad_slm_Eu16(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_slm_Eu16(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_slm_Eu16(k); let a = ad_slm_Eu16(&x); let y = ffi::c_echo_slm_Eu16(x, k); ensure!(addr() == a && ad_slm_Eu16(&y) == a && ck_slm_Eu16(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_slm_Eu16(200, mk_slm_Eu16(k), -1.5, k, mk_slm_Eu16((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_slm_Eu16(k); ensure!(o.c_m_slm_Eu16(x, k), "method"); }
  7 => { fn f(x: &mut [Eu16], k: i32) -> &mut [Eu16] { note(if ck_slm_Eu16(&x, k) { ad_slm_Eu16(&x) } else { 1 }); x } ensure!(ffi::c_cb_slm_Eu16(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_slm_Eu16(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_slm_TrivC(mut x: &mut [TrivC], k: i32) -> bool { let a = ad_slm_TrivC(&x); let ok = ck_slm_TrivC(&x, k); { let x: &mut [TrivC] = x; let k = (k + 1) & 3; for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; *x = mk_TrivC(k); } } note(a); ok }
fn r_make_slm_TrivC(z: &mut u8, k: i32) -> &mut [TrivC] { let x = mk_slm_TrivC(k); note(ad_slm_TrivC(&x)); x }
fn r_try_slm_TrivC(z: &mut u8, k: i32, fail: bool) -> R<&mut [TrivC]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_slm_TrivC(k); note(ad_slm_TrivC(&x)); Ok(x) }
fn r_echo_slm_TrivC(x: &mut [TrivC], k: i32) -> &mut [TrivC] { note(if ck_slm_TrivC(&x, k) { ad_slm_TrivC(&x) } else { 1 }); x }
fn r_mix_slm_TrivC(a: u8, x: &mut [TrivC], b: f64, k: i32, y: &mut [TrivC], c: u16) -> R<bool> { Ok(a == 200 && ck_slm_TrivC(&x, k) && b == -1.5 && ck_slm_TrivC(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_slm_TrivC(&mut self, x: &mut [TrivC], k: i32) -> bool { ck_RObj(self, 2) && ck_slm_TrivC(&x, k) } }
unsafe fn run_slm_TrivC(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_slm_TrivC(k); let a = ad_slm_TrivC(&x); ensure!(ffi::c_take_slm_TrivC(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(rp_sl_TrivC(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_TrivC(v, (k + 1 + i as i32) & 3)), "mutation not seen"); }
  1 => { let x = ffi::c_make_slm_TrivC(&mut Z, k); ensure!(ck_slm_TrivC(&x, k) && addr() == ad_slm_TrivC(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_slm_TrivC(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_slm_TrivC(&x, k) && addr() == ad_slm_TrivC(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_slm_TrivC(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_slm_TrivC(k); let a = ad_slm_TrivC(&x); let y = ffi::c_echo_slm_TrivC(x, k); ensure!(addr() == a && ad_slm_TrivC(&y) == a && ck_slm_TrivC(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_slm_TrivC(200, mk_slm_TrivC(k), -1.5, k, mk_slm_TrivC((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_slm_TrivC(k); ensure!(o.c_m_slm_TrivC(x, k), "method"); }
  7 => { fn f(x: &mut [TrivC], k: i32) -> &mut [TrivC] { note(if ck_slm_TrivC(&x, k) { ad_slm_TrivC(&x) } else { 1 }); x } ensure!(ffi::c_cb_slm_TrivC(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_slm_TrivC(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_slm_Box_RObj(mut x: &mut [Box<RObj>], k: i32) -> bool { let a = ad_slm_Box_RObj(&x); let ok = ck_slm_Box_RObj(&x, k); { let x: &mut [Box<RObj>] = x; let k = (k + 1) & 3; for (i, x) in x.iter_mut().enumerate() { let k = (k + i as i32) & 3; *x = mk_Box_RObj(k); } } note(a); ok }
fn r_make_slm_Box_RObj(z: &mut u8, k: i32) -> &mut [Box<RObj>] { let x = mk_slm_Box_RObj(k); note(ad_slm_Box_RObj(&x)); x }
fn r_try_slm_Box_RObj(z: &mut u8, k: i32, fail: bool) -> R<&mut [Box<RObj>]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_slm_Box_RObj(k); note(ad_slm_Box_RObj(&x)); Ok(x) }
fn r_echo_slm_Box_RObj(x: &mut [Box<RObj>], k: i32) -> &mut [Box<RObj>] { note(if ck_slm_Box_RObj(&x, k) { ad_slm_Box_RObj(&x) } else { 1 }); x }
fn r_mix_slm_Box_RObj(a: u8, x: &mut [Box<RObj>], b: f64, k: i32, y: &mut [Box<RObj>], c: u16) -> R<bool> { Ok(a == 200 && ck_slm_Box_RObj(&x, k) && b == -1.5 && ck_slm_Box_RObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_slm_Box_RObj(&self, x: &mut [Box<RObj>], k: i32) -> bool { ck_S3(self, 2) && ck_slm_Box_RObj(&x, k) } }
unsafe fn run_slm_Box_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_slm_Box_RObj(k); let a = ad_slm_Box_RObj(&x); ensure!(ffi::c_take_slm_Box_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity"); ensure!(rp_sl_Box_RObj(k)[..k as usize].iter().enumerate().all(|(i, v)| ck_Box_RObj(v, (k + 1 + i as i32) & 3)), "mutation not seen"); }
  1 => { let x = ffi::c_make_slm_Box_RObj(&mut Z, k); ensure!(ck_slm_Box_RObj(&x, k) && addr() == ad_slm_Box_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_slm_Box_RObj(&mut Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_slm_Box_RObj(&x, k) && addr() == ad_slm_Box_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_slm_Box_RObj(&mut Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_slm_Box_RObj(k); let a = ad_slm_Box_RObj(&x); let y = ffi::c_echo_slm_Box_RObj(x, k); ensure!(addr() == a && ad_slm_Box_RObj(&y) == a && ck_slm_Box_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_slm_Box_RObj(200, mk_slm_Box_RObj(k), -1.5, k, mk_slm_Box_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_slm_Box_RObj(k); ensure!(o.c_m_slm_Box_RObj(x, k), "method"); }
  7 => { fn f(x: &mut [Box<RObj>], k: i32) -> &mut [Box<RObj>] { note(if ck_slm_Box_RObj(&x, k) { ad_slm_Box_RObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_slm_Box_RObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_slm_Box_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_ptrconst_u8(mut x: *const u8, k: i32) -> bool { let a = ad_ptrconst_u8(&x); let ok = ck_ptrconst_u8(&x, k);  note(a); ok }
unsafe fn r_make_ptrconst_u8(k: i32) -> *const u8 { let x = mk_ptrconst_u8(k); note(ad_ptrconst_u8(&x)); x }
unsafe fn r_try_ptrconst_u8(k: i32, fail: bool) -> R<*const u8> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ptrconst_u8(k); note(ad_ptrconst_u8(&x)); Ok(x) }
unsafe fn r_echo_ptrconst_u8(x: *const u8, k: i32) -> *const u8 { note(if ck_ptrconst_u8(&x, k) { ad_ptrconst_u8(&x) } else { 1 }); x }
unsafe fn r_mix_ptrconst_u8(a: u8, x: *const u8, b: f64, k: i32, y: *const u8, c: u16) -> R<bool> { Ok(a == 200 && ck_ptrconst_u8(&x, k) && b == -1.5 && ck_ptrconst_u8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { unsafe fn r_m_ptrconst_u8(&mut self, x: *const u8, k: i32) -> *const u8 { note(if ck_S3(self, 2) && ck_ptrconst_u8(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_ptrconst_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ptrconst_u8(k); let a = ad_ptrconst_u8(&x); ensure!(ffi::c_take_ptrconst_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ptrconst_u8(k); ensure!(ck_ptrconst_u8(&x, k) && addr() == ad_ptrconst_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ptrconst_u8(k, false).map_err(|e| e.to_string())?; ensure!(ck_ptrconst_u8(&x, k) && addr() == ad_ptrconst_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ptrconst_u8(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ptrconst_u8(k); let a = ad_ptrconst_u8(&x); let y = ffi::c_echo_ptrconst_u8(x, k); ensure!(addr() == a && ad_ptrconst_u8(&y) == a && ck_ptrconst_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ptrconst_u8(200, mk_ptrconst_u8(k), -1.5, k, mk_ptrconst_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ptrconst_u8(k); let y = o.c_m_ptrconst_u8(x, k); ensure!(addr() == 0 && ck_ptrconst_u8(&y, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_ptrconst_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_ptrmut_u64(mut x: *mut u64, k: i32) -> bool { let a = ad_ptrmut_u64(&x); let ok = ck_ptrmut_u64(&x, k);  note(a); ok }
unsafe fn r_make_ptrmut_u64(k: i32) -> *mut u64 { let x = mk_ptrmut_u64(k); note(ad_ptrmut_u64(&x)); x }
unsafe fn r_try_ptrmut_u64(k: i32, fail: bool) -> R<*mut u64> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ptrmut_u64(k); note(ad_ptrmut_u64(&x)); Ok(x) }
unsafe fn r_echo_ptrmut_u64(x: *mut u64, k: i32) -> *mut u64 { note(if ck_ptrmut_u64(&x, k) { ad_ptrmut_u64(&x) } else { 1 }); x }
unsafe fn r_mix_ptrmut_u64(a: u8, x: *mut u64, b: f64, k: i32, y: *mut u64, c: u16) -> R<bool> { Ok(a == 200 && ck_ptrmut_u64(&x, k) && b == -1.5 && ck_ptrmut_u64(&y, (k + 1) & 3) && c == 60000) }
impl RObj { unsafe fn r_m_ptrmut_u64(&self, x: *mut u64, k: i32) -> *mut u64 { note(if ck_RObj(self, 2) && ck_ptrmut_u64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_ptrmut_u64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ptrmut_u64(k); let a = ad_ptrmut_u64(&x); ensure!(ffi::c_take_ptrmut_u64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ptrmut_u64(k); ensure!(ck_ptrmut_u64(&x, k) && addr() == ad_ptrmut_u64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ptrmut_u64(k, false).map_err(|e| e.to_string())?; ensure!(ck_ptrmut_u64(&x, k) && addr() == ad_ptrmut_u64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ptrmut_u64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ptrmut_u64(k); let a = ad_ptrmut_u64(&x); let y = ffi::c_echo_ptrmut_u64(x, k); ensure!(addr() == a && ad_ptrmut_u64(&y) == a && ck_ptrmut_u64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ptrmut_u64(200, mk_ptrmut_u64(k), -1.5, k, mk_ptrmut_u64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ptrmut_u64(k); let y = o.c_m_ptrmut_u64(x, k); ensure!(addr() == 0 && ck_ptrmut_u64(&y, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_ptrmut_u64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_ptrconst_S2(mut x: *const S2, k: i32) -> bool { let a = ad_ptrconst_S2(&x); let ok = ck_ptrconst_S2(&x, k);  note(a); ok }
unsafe fn r_make_ptrconst_S2(k: i32) -> *const S2 { let x = mk_ptrconst_S2(k); note(ad_ptrconst_S2(&x)); x }
unsafe fn r_try_ptrconst_S2(k: i32, fail: bool) -> R<*const S2> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ptrconst_S2(k); note(ad_ptrconst_S2(&x)); Ok(x) }
unsafe fn r_echo_ptrconst_S2(x: *const S2, k: i32) -> *const S2 { note(if ck_ptrconst_S2(&x, k) { ad_ptrconst_S2(&x) } else { 1 }); x }
unsafe fn r_mix_ptrconst_S2(a: u8, x: *const S2, b: f64, k: i32, y: *const S2, c: u16) -> R<bool> { Ok(a == 200 && ck_ptrconst_S2(&x, k) && b == -1.5 && ck_ptrconst_S2(&y, (k + 1) & 3) && c == 60000) }
impl RObj { unsafe fn r_m_ptrconst_S2(&mut self, x: *const S2, k: i32) -> *const S2 { note(if ck_RObj(self, 2) && ck_ptrconst_S2(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_ptrconst_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ptrconst_S2(k); let a = ad_ptrconst_S2(&x); ensure!(ffi::c_take_ptrconst_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ptrconst_S2(k); ensure!(ck_ptrconst_S2(&x, k) && addr() == ad_ptrconst_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ptrconst_S2(k, false).map_err(|e| e.to_string())?; ensure!(ck_ptrconst_S2(&x, k) && addr() == ad_ptrconst_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ptrconst_S2(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ptrconst_S2(k); let a = ad_ptrconst_S2(&x); let y = ffi::c_echo_ptrconst_S2(x, k); ensure!(addr() == a && ad_ptrconst_S2(&y) == a && ck_ptrconst_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ptrconst_S2(200, mk_ptrconst_S2(k), -1.5, k, mk_ptrconst_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ptrconst_S2(k); let y = o.c_m_ptrconst_S2(x, k); ensure!(addr() == 0 && ck_ptrconst_S2(&y, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_ptrconst_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_ptrmut_S7(mut x: *mut S7, k: i32) -> bool { let a = ad_ptrmut_S7(&x); let ok = ck_ptrmut_S7(&x, k);  note(a); ok }
unsafe fn r_make_ptrmut_S7(k: i32) -> *mut S7 { let x = mk_ptrmut_S7(k); note(ad_ptrmut_S7(&x)); x }
unsafe fn r_try_ptrmut_S7(k: i32, fail: bool) -> R<*mut S7> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ptrmut_S7(k); note(ad_ptrmut_S7(&x)); Ok(x) }
unsafe fn r_echo_ptrmut_S7(x: *mut S7, k: i32) -> *mut S7 { note(if ck_ptrmut_S7(&x, k) { ad_ptrmut_S7(&x) } else { 1 }); x }
unsafe fn r_mix_ptrmut_S7(a: u8, x: *mut S7, b: f64, k: i32, y: *mut S7, c: u16) -> R<bool> { Ok(a == 200 && ck_ptrmut_S7(&x, k) && b == -1.5 && ck_ptrmut_S7(&y, (k + 1) & 3) && c == 60000) }
impl S3 { unsafe fn r_m_ptrmut_S7(&self, x: *mut S7, k: i32) -> *mut S7 { note(if ck_S3(self, 2) && ck_ptrmut_S7(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_ptrmut_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ptrmut_S7(k); let a = ad_ptrmut_S7(&x); ensure!(ffi::c_take_ptrmut_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ptrmut_S7(k); ensure!(ck_ptrmut_S7(&x, k) && addr() == ad_ptrmut_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ptrmut_S7(k, false).map_err(|e| e.to_string())?; ensure!(ck_ptrmut_S7(&x, k) && addr() == ad_ptrmut_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ptrmut_S7(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ptrmut_S7(k); let a = ad_ptrmut_S7(&x); let y = ffi::c_echo_ptrmut_S7(x, k); ensure!(addr() == a && ad_ptrmut_S7(&y) == a && ck_ptrmut_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ptrmut_S7(200, mk_ptrmut_S7(k), -1.5, k, mk_ptrmut_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ptrmut_S7(k); let y = o.c_m_ptrmut_S7(x, k); ensure!(addr() == 0 && ck_ptrmut_S7(&y, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_ptrmut_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_ptrmut_CObj(mut x: *mut CObj, k: i32) -> bool { let a = ad_ptrmut_CObj(&x); let ok = ck_ptrmut_CObj(&x, k);  note(a); ok }
unsafe fn r_make_ptrmut_CObj(k: i32) -> *mut CObj { let x = mk_ptrmut_CObj(k); note(ad_ptrmut_CObj(&x)); x }
unsafe fn r_try_ptrmut_CObj(k: i32, fail: bool) -> R<*mut CObj> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ptrmut_CObj(k); note(ad_ptrmut_CObj(&x)); Ok(x) }
unsafe fn r_echo_ptrmut_CObj(x: *mut CObj, k: i32) -> *mut CObj { note(if ck_ptrmut_CObj(&x, k) { ad_ptrmut_CObj(&x) } else { 1 }); x }
unsafe fn r_mix_ptrmut_CObj(a: u8, x: *mut CObj, b: f64, k: i32, y: *mut CObj, c: u16) -> R<bool> { Ok(a == 200 && ck_ptrmut_CObj(&x, k) && b == -1.5 && ck_ptrmut_CObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { unsafe fn r_m_ptrmut_CObj(&mut self, x: *mut CObj, k: i32) -> *mut CObj { note(if ck_S3(self, 2) && ck_ptrmut_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_ptrmut_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ptrmut_CObj(k); let a = ad_ptrmut_CObj(&x); ensure!(ffi::c_take_ptrmut_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ptrmut_CObj(k); ensure!(ck_ptrmut_CObj(&x, k) && addr() == ad_ptrmut_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ptrmut_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_ptrmut_CObj(&x, k) && addr() == ad_ptrmut_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ptrmut_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ptrmut_CObj(k); let a = ad_ptrmut_CObj(&x); let y = ffi::c_echo_ptrmut_CObj(x, k); ensure!(addr() == a && ad_ptrmut_CObj(&y) == a && ck_ptrmut_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ptrmut_CObj(200, mk_ptrmut_CObj(k), -1.5, k, mk_ptrmut_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ptrmut_CObj(k); let y = o.c_m_ptrmut_CObj(x, k); ensure!(addr() == 0 && ck_ptrmut_CObj(&y, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_ptrmut_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_ptrconst_CObj(mut x: *const CObj, k: i32) -> bool { let a = ad_ptrconst_CObj(&x); let ok = ck_ptrconst_CObj(&x, k);  note(a); ok }
unsafe fn r_make_ptrconst_CObj(k: i32) -> *const CObj { let x = mk_ptrconst_CObj(k); note(ad_ptrconst_CObj(&x)); x }
unsafe fn r_try_ptrconst_CObj(k: i32, fail: bool) -> R<*const CObj> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ptrconst_CObj(k); note(ad_ptrconst_CObj(&x)); Ok(x) }
unsafe fn r_echo_ptrconst_CObj(x: *const CObj, k: i32) -> *const CObj { note(if ck_ptrconst_CObj(&x, k) { ad_ptrconst_CObj(&x) } else { 1 }); x }
unsafe fn r_mix_ptrconst_CObj(a: u8, x: *const CObj, b: f64, k: i32, y: *const CObj, c: u16) -> R<bool> { Ok(a == 200 && ck_ptrconst_CObj(&x, k) && b == -1.5 && ck_ptrconst_CObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { unsafe fn r_m_ptrconst_CObj(&self, x: *const CObj, k: i32) -> *const CObj { note(if ck_RObj(self, 2) && ck_ptrconst_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_ptrconst_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ptrconst_CObj(k); let a = ad_ptrconst_CObj(&x); ensure!(ffi::c_take_ptrconst_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ptrconst_CObj(k); ensure!(ck_ptrconst_CObj(&x, k) && addr() == ad_ptrconst_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ptrconst_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_ptrconst_CObj(&x, k) && addr() == ad_ptrconst_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ptrconst_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ptrconst_CObj(k); let a = ad_ptrconst_CObj(&x); let y = ffi::c_echo_ptrconst_CObj(x, k); ensure!(addr() == a && ad_ptrconst_CObj(&y) == a && ck_ptrconst_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ptrconst_CObj(200, mk_ptrconst_CObj(k), -1.5, k, mk_ptrconst_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ptrconst_CObj(k); let y = o.c_m_ptrconst_CObj(x, k); ensure!(addr() == 0 && ck_ptrconst_CObj(&y, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_ptrconst_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_ptrconst_RObj(mut x: *const RObj, k: i32) -> bool { let a = ad_ptrconst_RObj(&x); let ok = ck_ptrconst_RObj(&x, k);  note(a); ok }
unsafe fn r_make_ptrconst_RObj(k: i32) -> *const RObj { let x = mk_ptrconst_RObj(k); note(ad_ptrconst_RObj(&x)); x }
unsafe fn r_try_ptrconst_RObj(k: i32, fail: bool) -> R<*const RObj> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ptrconst_RObj(k); note(ad_ptrconst_RObj(&x)); Ok(x) }
unsafe fn r_echo_ptrconst_RObj(x: *const RObj, k: i32) -> *const RObj { note(if ck_ptrconst_RObj(&x, k) { ad_ptrconst_RObj(&x) } else { 1 }); x }
unsafe fn r_mix_ptrconst_RObj(a: u8, x: *const RObj, b: f64, k: i32, y: *const RObj, c: u16) -> R<bool> { Ok(a == 200 && ck_ptrconst_RObj(&x, k) && b == -1.5 && ck_ptrconst_RObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { unsafe fn r_m_ptrconst_RObj(&mut self, x: *const RObj, k: i32) -> *const RObj { note(if ck_RObj(self, 2) && ck_ptrconst_RObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_ptrconst_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ptrconst_RObj(k); let a = ad_ptrconst_RObj(&x); ensure!(ffi::c_take_ptrconst_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ptrconst_RObj(k); ensure!(ck_ptrconst_RObj(&x, k) && addr() == ad_ptrconst_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ptrconst_RObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_ptrconst_RObj(&x, k) && addr() == ad_ptrconst_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ptrconst_RObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ptrconst_RObj(k); let a = ad_ptrconst_RObj(&x); let y = ffi::c_echo_ptrconst_RObj(x, k); ensure!(addr() == a && ad_ptrconst_RObj(&y) == a && ck_ptrconst_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ptrconst_RObj(200, mk_ptrconst_RObj(k), -1.5, k, mk_ptrconst_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ptrconst_RObj(k); let y = o.c_m_ptrconst_RObj(x, k); ensure!(addr() == 0 && ck_ptrconst_RObj(&y, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_ptrconst_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_ptrmut_RObj(mut x: *mut RObj, k: i32) -> bool { let a = ad_ptrmut_RObj(&x); let ok = ck_ptrmut_RObj(&x, k);  note(a); ok }
unsafe fn r_make_ptrmut_RObj(k: i32) -> *mut RObj { let x = mk_ptrmut_RObj(k); note(ad_ptrmut_RObj(&x)); x }
unsafe fn r_try_ptrmut_RObj(k: i32, fail: bool) -> R<*mut RObj> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ptrmut_RObj(k); note(ad_ptrmut_RObj(&x)); Ok(x) }
unsafe fn r_echo_ptrmut_RObj(x: *mut RObj, k: i32) -> *mut RObj { note(if ck_ptrmut_RObj(&x, k) { ad_ptrmut_RObj(&x) } else { 1 }); x }
unsafe fn r_mix_ptrmut_RObj(a: u8, x: *mut RObj, b: f64, k: i32, y: *mut RObj, c: u16) -> R<bool> { Ok(a == 200 && ck_ptrmut_RObj(&x, k) && b == -1.5 && ck_ptrmut_RObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { unsafe fn r_m_ptrmut_RObj(&self, x: *mut RObj, k: i32) -> *mut RObj { note(if ck_S3(self, 2) && ck_ptrmut_RObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_ptrmut_RObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ptrmut_RObj(k); let a = ad_ptrmut_RObj(&x); ensure!(ffi::c_take_ptrmut_RObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ptrmut_RObj(k); ensure!(ck_ptrmut_RObj(&x, k) && addr() == ad_ptrmut_RObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ptrmut_RObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_ptrmut_RObj(&x, k) && addr() == ad_ptrmut_RObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ptrmut_RObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ptrmut_RObj(k); let a = ad_ptrmut_RObj(&x); let y = ffi::c_echo_ptrmut_RObj(x, k); ensure!(addr() == a && ad_ptrmut_RObj(&y) == a && ck_ptrmut_RObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ptrmut_RObj(200, mk_ptrmut_RObj(k), -1.5, k, mk_ptrmut_RObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_ptrmut_RObj(k); let y = o.c_m_ptrmut_RObj(x, k); ensure!(addr() == 0 && ck_ptrmut_RObj(&y, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_ptrmut_RObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_ptrconst_CxxString(mut x: *const CxxString, k: i32) -> bool { let a = ad_ptrconst_CxxString(&x); let ok = ck_ptrconst_CxxString(&x, k);  note(a); ok }
unsafe fn r_make_ptrconst_CxxString(k: i32) -> *const CxxString { let x = mk_ptrconst_CxxString(k); note(ad_ptrconst_CxxString(&x)); x }
unsafe fn r_try_ptrconst_CxxString(k: i32, fail: bool) -> R<*const CxxString> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_ptrconst_CxxString(k); note(ad_ptrconst_CxxString(&x)); Ok(x) }
unsafe fn r_echo_ptrconst_CxxString(x: *const CxxString, k: i32) -> *const CxxString { note(if ck_ptrconst_CxxString(&x, k) { ad_ptrconst_CxxString(&x) } else { 1 }); x }
unsafe fn r_mix_ptrconst_CxxString(a: u8, x: *const CxxString, b: f64, k: i32, y: *const CxxString, c: u16) -> R<bool> { Ok(a == 200 && ck_ptrconst_CxxString(&x, k) && b == -1.5 && ck_ptrconst_CxxString(&y, (k + 1) & 3) && c == 60000) }
impl S3 { unsafe fn r_m_ptrconst_CxxString(&mut self, x: *const CxxString, k: i32) -> *const CxxString { note(if ck_S3(self, 2) && ck_ptrconst_CxxString(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_ptrconst_CxxString(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_ptrconst_CxxString(k); let a = ad_ptrconst_CxxString(&x); ensure!(ffi::c_take_ptrconst_CxxString(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_ptrconst_CxxString(k); ensure!(ck_ptrconst_CxxString(&x, k) && addr() == ad_ptrconst_CxxString(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_ptrconst_CxxString(k, false).map_err(|e| e.to_string())?; ensure!(ck_ptrconst_CxxString(&x, k) && addr() == ad_ptrconst_CxxString(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_ptrconst_CxxString(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_ptrconst_CxxString(k); let a = ad_ptrconst_CxxString(&x); let y = ffi::c_echo_ptrconst_CxxString(x, k); ensure!(addr() == a && ad_ptrconst_CxxString(&y) == a && ck_ptrconst_CxxString(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_ptrconst_CxxString(200, mk_ptrconst_CxxString(k), -1.5, k, mk_ptrconst_CxxString((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_ptrconst_CxxString(k); let y = o.c_m_ptrconst_CxxString(x, k); ensure!(addr() == 0 && ck_ptrconst_CxxString(&y, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_ptrconst_CxxString(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_CObj(mut x: UniquePtr<CObj>, k: i32) -> bool { let a = ad_UniquePtr_CObj(&x); let ok = ck_UniquePtr_CObj(&x, k);  note(a); ok }
fn r_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj> { let x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(&x)); x }
fn r_try_UniquePtr_CObj(k: i32, fail: bool) -> R<UniquePtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(&x)); Ok(x) }
fn r_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_UniquePtr_CObj(&x, k) { ad_UniquePtr_CObj(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CObj(&x, k) && b == -1.5 && ck_UniquePtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_UniquePtr_CObj(&self, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_RObj(self, 2) && ck_UniquePtr_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CObj(k); let a = ad_UniquePtr_CObj(&x); ensure!(ffi::c_take_UniquePtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CObj(k); ensure!(ck_UniquePtr_CObj(&x, k) && addr() == ad_UniquePtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CObj(&x, k) && addr() == ad_UniquePtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CObj(k); let a = ad_UniquePtr_CObj(&x); let y = ffi::c_echo_UniquePtr_CObj(x, k); ensure!(addr() == a && ad_UniquePtr_CObj(&y) == a && ck_UniquePtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CObj(200, mk_UniquePtr_CObj(k), -1.5, k, mk_UniquePtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_UniquePtr_CObj(k); let y = o.c_m_UniquePtr_CObj(x, k); ensure!(addr() == 0 && ck_UniquePtr_CObj(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_UniquePtr_CObj(&x, k) { ad_UniquePtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_SharedPtr_CObj(mut x: SharedPtr<CObj>, k: i32) -> bool { let a = ad_SharedPtr_CObj(&x); let ok = ck_SharedPtr_CObj(&x, k);  note(a); ok }
fn r_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj> { let x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(&x)); x }
fn r_try_SharedPtr_CObj(k: i32, fail: bool) -> R<SharedPtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(&x)); Ok(x) }
fn r_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_SharedPtr_CObj(&x, k) { ad_SharedPtr_CObj(&x) } else { 1 }); x }
fn r_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_SharedPtr_CObj(&x, k) && b == -1.5 && ck_SharedPtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_SharedPtr_CObj(&mut self, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_RObj(self, 2) && ck_SharedPtr_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_SharedPtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_SharedPtr_CObj(k); let a = ad_SharedPtr_CObj(&x); ensure!(ffi::c_take_SharedPtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_SharedPtr_CObj(k); ensure!(ck_SharedPtr_CObj(&x, k) && addr() == ad_SharedPtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_SharedPtr_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_SharedPtr_CObj(&x, k) && addr() == ad_SharedPtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_SharedPtr_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_SharedPtr_CObj(k); let a = ad_SharedPtr_CObj(&x); let y = ffi::c_echo_SharedPtr_CObj(x, k); ensure!(addr() == a && ad_SharedPtr_CObj(&y) == a && ck_SharedPtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_SharedPtr_CObj(200, mk_SharedPtr_CObj(k), -1.5, k, mk_SharedPtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_SharedPtr_CObj(k); let y = o.c_m_SharedPtr_CObj(x, k); ensure!(addr() == 0 && ck_SharedPtr_CObj(&y, k), "method"); }
  7 => { fn f(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_SharedPtr_CObj(&x, k) { ad_SharedPtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_SharedPtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_SharedPtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
pub fn systems() -> Vec<System> { let mut v = vec![];
let ops: Vec<String> = (0..60).map(|i| format!("{}({})", ["c_take", "c_make", "c_try", "c_try_fail", "c_echo", "c_mix", "c_method", "c_callback", "r_take", "r_make", "r_try", "r_try_fail", "r_echo", "r_mix", "r_method"][i / 4], i % 4)).collect();
let mut add = |n: &str, f: unsafe fn(usize, i32) -> R<()>| { v.push(rust_system(&format!("sig-{}-{}", "c09c", n), ops.clone(), move |t, key| { for x in t { unsafe { f(*x as usize / 4, *x as i32 % 4)? } } key.push(t.last().map_or(255, |x| *x as u8)); Ok(true) })); };
add("ref_arr4_u8", run_ref_arr4_u8);
add("mut_u8", run_mut_u8);
add("mut_i64", run_mut_i64);
add("mut_f32", run_mut_f32);
add("mut_bool", run_mut_bool);
add("mut_String", run_mut_String);
add("mut_S2", run_mut_S2);
add("mut_S7", run_mut_S7);
add("mut_RObj", run_mut_RObj);
add("mut_CObj", run_mut_CObj);
add("mut_CxxString", run_mut_CxxString);
add("mut_CxxVector_u8", run_mut_CxxVector_u8);
add("mut_CxxVector_S2", run_mut_CxxVector_S2);
add("mut_Vec_u8", run_mut_Vec_u8);
add("mut_Vec_String", run_mut_Vec_String);
add("mut_Box_RObj", run_mut_Box_RObj);
add("mut_UniquePtr_CObj", run_mut_UniquePtr_CObj);
add("mut_SharedPtr_CObj", run_mut_SharedPtr_CObj);
add("mut_Ei32", run_mut_Ei32);
add("mut_TrivB", run_mut_TrivB);
add("mut_arr3_S2", run_mut_arr3_S2);
add("sl_u8", run_sl_u8);
add("sl_u16", run_sl_u16);
add("sl_i32", run_sl_i32);
add("sl_f64", run_sl_f64);
add("sl_bool", run_sl_bool);
add("sl_usize", run_sl_usize);
add("sl_c_char", run_sl_c_char);
add("sl_String", run_sl_String);
add("sl_S2", run_sl_S2);
add("sl_S7", run_sl_S7);
add("sl_Ei8", run_sl_Ei8);
add("sl_TrivA", run_sl_TrivA);
add("sl_RObj", run_sl_RObj);
add("sl_Box_RObj", run_sl_Box_RObj);
add("sl_UniquePtr_CObj", run_sl_UniquePtr_CObj);
add("sl_Vec_u8", run_sl_Vec_u8);
add("sl_f32", run_sl_f32);
add("sl_isize", run_sl_isize);
add("sl_arr4_u8", run_sl_arr4_u8);
add("slm_u8", run_slm_u8);
add("slm_i64", run_slm_i64);
add("slm_f32", run_slm_f32);
add("slm_String", run_slm_String);
add("slm_S7", run_slm_S7);
add("slm_RObj", run_slm_RObj);
add("slm_c_char", run_slm_c_char);
add("slm_Eu16", run_slm_Eu16);
add("slm_TrivC", run_slm_TrivC);
add("slm_Box_RObj", run_slm_Box_RObj);
add("ptrconst_u8", run_ptrconst_u8);
add("ptrmut_u64", run_ptrmut_u64);
add("ptrconst_S2", run_ptrconst_S2);
add("ptrmut_S7", run_ptrmut_S7);
add("ptrmut_CObj", run_ptrmut_CObj);
add("ptrconst_CObj", run_ptrconst_CObj);
add("ptrconst_RObj", run_ptrconst_RObj);
add("ptrmut_RObj", run_ptrmut_RObj);
add("ptrconst_CxxString", run_ptrconst_CxxString);
add("UniquePtr_CObj", run_UniquePtr_CObj);
add("SharedPtr_CObj", run_SharedPtr_CObj);
v }
