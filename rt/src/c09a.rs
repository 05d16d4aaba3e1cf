// Generated by gen_sig.py.
#![allow(clippy::all, unused_braces, static_mut_refs)]
use crate::engine::{rust_system, System};
use crate::ensure;
use core::ffi::c_char;
use core::pin::Pin;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use self::ffi::*;
static TXT: [&str; 4] = ["", "a", "h\u{e9}\0x", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\u{1F600}"];
#[unsafe(no_mangle)]
pub static mut vk_addr_c09a: usize = 0;
fn addr() -> usize { unsafe { vk_addr_c09a } }
fn note(a: usize) { unsafe { vk_addr_c09a = a } }
pub struct RObj { tag: i32, pad: String }
impl RObj {
    fn new(k: i32) -> Self { RObj { tag: k, pad: TXT[k as usize].to_owned() } }
    fn r_tag(&self) -> i32 { self.tag }
    fn r_set(&mut self, k: i32) { *self = RObj::new(k) }
}
fn r_new(k: i32) -> Box<RObj> { Box::new(RObj::new(k)) }
type R<T> = Result<T, String>;
#[cxx::bridge(namespace = "c09a")]
mod ffi {
    struct S3 { f0: f32, f1: f32 }
    #[repr(u8)] #[derive(Debug)] enum Eu8 { V0 = 0, V1 = 1, V2 = 128, V3 = 255 }
    #[repr(i8)] #[derive(Debug)] enum Ei8 { V0 = 0, V1 = 1, V2 = -128, V3 = 127 }
    #[repr(u16)] #[derive(Debug)] enum Eu16 { V0 = 0, V1 = 1, V2 = 32768, V3 = 65535 }
    #[repr(i32)] #[derive(Debug)] enum Ei32 { V0 = -1, V1 = 0, V2 = 2147483647, V3 = -2147483648 }
    #[repr(u32)] #[derive(Debug)] enum Eu32 { V0 = 0, V1 = 7, V2 = 2147483648, V3 = 4294967295 }
    #[repr(i64)] #[derive(Debug)] enum Ei64 { V0 = -1, V1 = 1, V2 = 1099511627776, V3 = 9223372036854775807 }
    #[repr(u64)] #[derive(Debug)] enum Eu64 { V0 = 0, V1 = 1, V2 = 8589934592, V3 = 4611686018427387904 }
    #[repr(u16)] #[derive(Debug)] enum XE { V0 = 3, V1 = 1, V2 = 500, V3 = 65535 }
        extern "C++" { type XE; }
    struct S1 { f0: u8 }
    struct S2 { f0: u8, f1: u8 }
    struct S4 { f0: f64, f1: u8 }
    struct S5 { f0: u64, f1: u64 }
    struct S6 { f0: u64, f1: u32, f2: u64 }
    struct S7 { f0: String }
    struct S8 { f0: Box<RObj>, f1: u8 }
    struct S9 { f0: UniquePtr<CObj> }
    struct S10 { f0: S3, f1: S2, f2: S7 }
    struct S11 { f0: [u8; 3] }
    struct S12 { f0: [S2; 3], f1: bool }
    struct S13 { f0: Vec<String>, f1: Vec<S2> }
    struct S14 { f0: Eu16, f1: bool, f2: Ei64 }
    struct S15 { f0: bool }
    struct S16<'a> { f0: &'a str, f1: u16 }
    struct S17 { f0: f32, f1: f64 }
    struct S18 { f0: c_char, f1: isize }
    struct S19 { f0: SharedPtr<CObj>, f1: i16 }
    struct S20 { f0: UniquePtr<CxxString> }
    struct S21 { f0: f32, f1: f32, f2: f32 }
    struct S22<'a> { f0: &'a [u16], f1: bool }
    struct S23<'a> { f0: &'a S2 }
    extern "C++" { type TrivA = crate::c09a::TrivA; }
    extern "C++" { type TrivB = crate::c09a::TrivB; }
    extern "C++" { type TrivC = crate::c09a::TrivC; }
    extern "C++" { type TrivD = crate::c09a::TrivD; }
    extern "C++" { type TrivM = crate::c09a::TrivM; }
    unsafe extern "C++" {
        include!("rt/cc/c09a.hpp");
        type CObj;
        fn c_tag(self: &CObj) -> i32;
        fn c_set(self: Pin<&mut CObj>, k: i32);
        fn c_take_bool(x: bool, k: i32) -> bool;
        fn c_make_bool(k: i32) -> bool;
        fn c_try_bool(k: i32, fail: bool) -> Result<bool>;
        fn c_echo_bool(x: bool, k: i32) -> bool;
        fn c_mix_bool(a: u8, x: bool, b: f64, k: i32, y: bool, c: u16) -> Result<bool>;
        fn c_m_bool(self: &CObj, x: bool, k: i32) -> bool;
        fn c_cb_bool(f: fn(bool, i32) -> bool, k: i32) -> bool;
        fn c_run_bool(pos: i32, k: i32) -> i32;
        fn c_take_u8(x: u8, k: i32) -> bool;
        fn c_make_u8(k: i32) -> u8;
        fn c_try_u8(k: i32, fail: bool) -> Result<u8>;
        fn c_echo_u8(x: u8, k: i32) -> u8;
        fn c_mix_u8(a: u8, x: u8, b: f64, k: i32, y: u8, c: u16) -> Result<bool>;
        fn c_m_u8(self: Pin<&mut CObj>, x: u8, k: i32) -> u8;
        fn c_cb_u8(f: fn(u8, i32) -> u8, k: i32) -> bool;
        fn c_run_u8(pos: i32, k: i32) -> i32;
        fn c_take_i8(x: i8, k: i32) -> bool;
        fn c_make_i8(k: i32) -> i8;
        fn c_try_i8(k: i32, fail: bool) -> Result<i8>;
        fn c_echo_i8(x: i8, k: i32) -> i8;
        fn c_mix_i8(a: u8, x: i8, b: f64, k: i32, y: i8, c: u16) -> Result<bool>;
        fn c_m_i8(self: &S3, x: i8, k: i32) -> i8;
        fn c_cb_i8(f: fn(i8, i32) -> i8, k: i32) -> bool;
        fn c_run_i8(pos: i32, k: i32) -> i32;
        fn c_take_u16(x: u16, k: i32) -> bool;
        fn c_make_u16(k: i32) -> u16;
        fn c_try_u16(k: i32, fail: bool) -> Result<u16>;
        fn c_echo_u16(x: u16, k: i32) -> u16;
        fn c_mix_u16(a: u8, x: u16, b: f64, k: i32, y: u16, c: u16) -> Result<bool>;
        fn c_m_u16(self: &mut S3, x: u16, k: i32) -> u16;
        fn c_cb_u16(f: fn(u16, i32) -> u16, k: i32) -> bool;
        fn c_run_u16(pos: i32, k: i32) -> i32;
        fn c_take_i16(x: i16, k: i32) -> bool;
        fn c_make_i16(k: i32) -> i16;
        fn c_try_i16(k: i32, fail: bool) -> Result<i16>;
        fn c_echo_i16(x: i16, k: i32) -> i16;
        fn c_mix_i16(a: u8, x: i16, b: f64, k: i32, y: i16, c: u16) -> Result<bool>;
        fn c_m_i16(self: &CObj, x: i16, k: i32) -> i16;
        fn c_cb_i16(f: fn(i16, i32) -> i16, k: i32) -> bool;
        fn c_run_i16(pos: i32, k: i32) -> i32;
        fn c_take_u32(x: u32, k: i32) -> bool;
        fn c_make_u32(k: i32) -> u32;
        fn c_try_u32(k: i32, fail: bool) -> Result<u32>;
        fn c_echo_u32(x: u32, k: i32) -> u32;
        fn c_mix_u32(a: u8, x: u32, b: f64, k: i32, y: u32, c: u16) -> Result<bool>;
        fn c_m_u32(self: Pin<&mut CObj>, x: u32, k: i32) -> u32;
        fn c_cb_u32(f: fn(u32, i32) -> u32, k: i32) -> bool;
        fn c_run_u32(pos: i32, k: i32) -> i32;
        fn c_take_i32(x: i32, k: i32) -> bool;
        fn c_make_i32(k: i32) -> i32;
        fn c_try_i32(k: i32, fail: bool) -> Result<i32>;
        fn c_echo_i32(x: i32, k: i32) -> i32;
        fn c_mix_i32(a: u8, x: i32, b: f64, k: i32, y: i32, c: u16) -> Result<bool>;
        fn c_m_i32(self: &S3, x: i32, k: i32) -> i32;
        fn c_cb_i32(f: fn(i32, i32) -> i32, k: i32) -> bool;
        fn c_run_i32(pos: i32, k: i32) -> i32;
        fn c_take_u64(x: u64, k: i32) -> bool;
        fn c_make_u64(k: i32) -> u64;
        fn c_try_u64(k: i32, fail: bool) -> Result<u64>;
        fn c_echo_u64(x: u64, k: i32) -> u64;
        fn c_mix_u64(a: u8, x: u64, b: f64, k: i32, y: u64, c: u16) -> Result<bool>;
        fn c_m_u64(self: &mut S3, x: u64, k: i32) -> u64;
        fn c_cb_u64(f: fn(u64, i32) -> u64, k: i32) -> bool;
        fn c_run_u64(pos: i32, k: i32) -> i32;
        fn c_take_i64(x: i64, k: i32) -> bool;
        fn c_make_i64(k: i32) -> i64;
        fn c_try_i64(k: i32, fail: bool) -> Result<i64>;
        fn c_echo_i64(x: i64, k: i32) -> i64;
        fn c_mix_i64(a: u8, x: i64, b: f64, k: i32, y: i64, c: u16) -> Result<bool>;
        fn c_m_i64(self: &CObj, x: i64, k: i32) -> i64;
        fn c_cb_i64(f: fn(i64, i32) -> i64, k: i32) -> bool;
        fn c_run_i64(pos: i32, k: i32) -> i32;
        fn c_take_usize(x: usize, k: i32) -> bool;
        fn c_make_usize(k: i32) -> usize;
        fn c_try_usize(k: i32, fail: bool) -> Result<usize>;
        fn c_echo_usize(x: usize, k: i32) -> usize;
        fn c_mix_usize(a: u8, x: usize, b: f64, k: i32, y: usize, c: u16) -> Result<bool>;
        fn c_m_usize(self: Pin<&mut CObj>, x: usize, k: i32) -> usize;
        fn c_cb_usize(f: fn(usize, i32) -> usize, k: i32) -> bool;
        fn c_run_usize(pos: i32, k: i32) -> i32;
        fn c_take_isize(x: isize, k: i32) -> bool;
        fn c_make_isize(k: i32) -> isize;
        fn c_try_isize(k: i32, fail: bool) -> Result<isize>;
        fn c_echo_isize(x: isize, k: i32) -> isize;
        fn c_mix_isize(a: u8, x: isize, b: f64, k: i32, y: isize, c: u16) -> Result<bool>;
        fn c_m_isize(self: &S3, x: isize, k: i32) -> isize;
        fn c_cb_isize(f: fn(isize, i32) -> isize, k: i32) -> bool;
        fn c_run_isize(pos: i32, k: i32) -> i32;
        fn c_take_c_char(x: c_char, k: i32) -> bool;
        fn c_make_c_char(k: i32) -> c_char;
        fn c_try_c_char(k: i32, fail: bool) -> Result<c_char>;
        fn c_echo_c_char(x: c_char, k: i32) -> c_char;
        fn c_mix_c_char(a: u8, x: c_char, b: f64, k: i32, y: c_char, c: u16) -> Result<bool>;
        fn c_m_c_char(self: &mut S3, x: c_char, k: i32) -> c_char;
        fn c_cb_c_char(f: fn(c_char, i32) -> c_char, k: i32) -> bool;
        fn c_run_c_char(pos: i32, k: i32) -> i32;
        fn c_take_f32(x: f32, k: i32) -> bool;
        fn c_make_f32(k: i32) -> f32;
        fn c_try_f32(k: i32, fail: bool) -> Result<f32>;
        fn c_echo_f32(x: f32, k: i32) -> f32;
        fn c_mix_f32(a: u8, x: f32, b: f64, k: i32, y: f32, c: u16) -> Result<bool>;
        fn c_m_f32(self: &CObj, x: f32, k: i32) -> f32;
        fn c_cb_f32(f: fn(f32, i32) -> f32, k: i32) -> bool;
        fn c_run_f32(pos: i32, k: i32) -> i32;
        fn c_take_f64(x: f64, k: i32) -> bool;
        fn c_make_f64(k: i32) -> f64;
        fn c_try_f64(k: i32, fail: bool) -> Result<f64>;
        fn c_echo_f64(x: f64, k: i32) -> f64;
        fn c_mix_f64(a: u8, x: f64, b: f64, k: i32, y: f64, c: u16) -> Result<bool>;
        fn c_m_f64(self: Pin<&mut CObj>, x: f64, k: i32) -> f64;
        fn c_cb_f64(f: fn(f64, i32) -> f64, k: i32) -> bool;
        fn c_run_f64(pos: i32, k: i32) -> i32;
        fn c_take_Eu8(x: Eu8, k: i32) -> bool;
        fn c_make_Eu8(k: i32) -> Eu8;
        fn c_try_Eu8(k: i32, fail: bool) -> Result<Eu8>;
        fn c_echo_Eu8(x: Eu8, k: i32) -> Eu8;
        fn c_mix_Eu8(a: u8, x: Eu8, b: f64, k: i32, y: Eu8, c: u16) -> Result<bool>;
        fn c_m_Eu8(self: &S3, x: Eu8, k: i32) -> Eu8;
        fn c_cb_Eu8(f: fn(Eu8, i32) -> Eu8, k: i32) -> bool;
        fn c_run_Eu8(pos: i32, k: i32) -> i32;
        fn c_take_Ei8(x: Ei8, k: i32) -> bool;
        fn c_make_Ei8(k: i32) -> Ei8;
        fn c_try_Ei8(k: i32, fail: bool) -> Result<Ei8>;
        fn c_echo_Ei8(x: Ei8, k: i32) -> Ei8;
        fn c_mix_Ei8(a: u8, x: Ei8, b: f64, k: i32, y: Ei8, c: u16) -> Result<bool>;
        fn c_m_Ei8(self: &mut S3, x: Ei8, k: i32) -> Ei8;
        fn c_cb_Ei8(f: fn(Ei8, i32) -> Ei8, k: i32) -> bool;
        fn c_run_Ei8(pos: i32, k: i32) -> i32;
        fn c_take_Eu16(x: Eu16, k: i32) -> bool;
        fn c_make_Eu16(k: i32) -> Eu16;
        fn c_try_Eu16(k: i32, fail: bool) -> Result<Eu16>;
        fn c_echo_Eu16(x: Eu16, k: i32) -> Eu16;
        fn c_mix_Eu16(a: u8, x: Eu16, b: f64, k: i32, y: Eu16, c: u16) -> Result<bool>;
        fn c_m_Eu16(self: &CObj, x: Eu16, k: i32) -> Eu16;
        fn c_cb_Eu16(f: fn(Eu16, i32) -> Eu16, k: i32) -> bool;
        fn c_run_Eu16(pos: i32, k: i32) -> i32;
        fn c_take_Ei32(x: Ei32, k: i32) -> bool;
        fn c_make_Ei32(k: i32) -> Ei32;
        fn c_try_Ei32(k: i32, fail: bool) -> Result<Ei32>;
        fn c_echo_Ei32(x: Ei32, k: i32) -> Ei32;
        fn c_mix_Ei32(a: u8, x: Ei32, b: f64, k: i32, y: Ei32, c: u16) -> Result<bool>;
        fn c_m_Ei32(self: Pin<&mut CObj>, x: Ei32, k: i32) -> Ei32;
        fn c_cb_Ei32(f: fn(Ei32, i32) -> Ei32, k: i32) -> bool;
        fn c_run_Ei32(pos: i32, k: i32) -> i32;
        fn c_take_Eu32(x: Eu32, k: i32) -> bool;
        fn c_make_Eu32(k: i32) -> Eu32;
        fn c_try_Eu32(k: i32, fail: bool) -> Result<Eu32>;
        fn c_echo_Eu32(x: Eu32, k: i32) -> Eu32;
        fn c_mix_Eu32(a: u8, x: Eu32, b: f64, k: i32, y: Eu32, c: u16) -> Result<bool>;
        fn c_m_Eu32(self: &S3, x: Eu32, k: i32) -> Eu32;
        fn c_cb_Eu32(f: fn(Eu32, i32) -> Eu32, k: i32) -> bool;
        fn c_run_Eu32(pos: i32, k: i32) -> i32;
        fn c_take_Ei64(x: Ei64, k: i32) -> bool;
        fn c_make_Ei64(k: i32) -> Ei64;
        fn c_try_Ei64(k: i32, fail: bool) -> Result<Ei64>;
        fn c_echo_Ei64(x: Ei64, k: i32) -> Ei64;
        fn c_mix_Ei64(a: u8, x: Ei64, b: f64, k: i32, y: Ei64, c: u16) -> Result<bool>;
        fn c_m_Ei64(self: &mut S3, x: Ei64, k: i32) -> Ei64;
        fn c_cb_Ei64(f: fn(Ei64, i32) -> Ei64, k: i32) -> bool;
        fn c_run_Ei64(pos: i32, k: i32) -> i32;
        fn c_take_Eu64(x: Eu64, k: i32) -> bool;
        fn c_make_Eu64(k: i32) -> Eu64;
        fn c_try_Eu64(k: i32, fail: bool) -> Result<Eu64>;
        fn c_echo_Eu64(x: Eu64, k: i32) -> Eu64;
        fn c_mix_Eu64(a: u8, x: Eu64, b: f64, k: i32, y: Eu64, c: u16) -> Result<bool>;
        fn c_m_Eu64(self: &CObj, x: Eu64, k: i32) -> Eu64;
        fn c_cb_Eu64(f: fn(Eu64, i32) -> Eu64, k: i32) -> bool;
        fn c_run_Eu64(pos: i32, k: i32) -> i32;
        fn c_take_XE(x: XE, k: i32) -> bool;
        fn c_make_XE(k: i32) -> XE;
        fn c_try_XE(k: i32, fail: bool) -> Result<XE>;
        fn c_echo_XE(x: XE, k: i32) -> XE;
        fn c_mix_XE(a: u8, x: XE, b: f64, k: i32, y: XE, c: u16) -> Result<bool>;
        fn c_m_XE(self: Pin<&mut CObj>, x: XE, k: i32) -> XE;
        fn c_cb_XE(f: fn(XE, i32) -> XE, k: i32) -> bool;
        fn c_run_XE(pos: i32, k: i32) -> i32;
        fn c_take_str(x: &str, k: i32) -> bool;
        fn c_make_str(z: &u8, k: i32) -> &str;
        fn c_try_str(z: &u8, k: i32, fail: bool) -> Result<&str>;
        fn c_echo_str(x: &str, k: i32) -> &str;
        fn c_mix_str(a: u8, x: &str, b: f64, k: i32, y: &str, c: u16) -> Result<bool>;
        fn c_m_str(self: &S3, x: &str, k: i32) -> bool;
        fn c_cb_str(f: fn(&str, i32) -> &str, k: i32) -> bool;
        fn c_run_str(pos: i32, k: i32) -> i32;
        fn c_take_String(x: String, k: i32) -> bool;
        fn c_make_String(k: i32) -> String;
        fn c_try_String(k: i32, fail: bool) -> Result<String>;
        fn c_echo_String(x: String, k: i32) -> String;
        fn c_mix_String(a: u8, x: String, b: f64, k: i32, y: String, c: u16) -> Result<bool>;
        fn c_m_String(self: &mut S3, x: String, k: i32) -> String;
        fn c_cb_String(f: fn(String, i32) -> String, k: i32) -> bool;
        fn c_run_String(pos: i32, k: i32) -> i32;
        fn c_take_S1(x: S1, k: i32) -> bool;
        fn c_make_S1(k: i32) -> S1;
        fn c_try_S1(k: i32, fail: bool) -> Result<S1>;
        fn c_echo_S1(x: S1, k: i32) -> S1;
        fn c_mix_S1(a: u8, x: S1, b: f64, k: i32, y: S1, c: u16) -> Result<bool>;
        fn c_m_S1(self: &CObj, x: S1, k: i32) -> S1;
        fn c_cb_S1(f: fn(S1, i32) -> S1, k: i32) -> bool;
        fn c_run_S1(pos: i32, k: i32) -> i32;
        fn c_take_S2(x: S2, k: i32) -> bool;
        fn c_make_S2(k: i32) -> S2;
        fn c_try_S2(k: i32, fail: bool) -> Result<S2>;
        fn c_echo_S2(x: S2, k: i32) -> S2;
        fn c_mix_S2(a: u8, x: S2, b: f64, k: i32, y: S2, c: u16) -> Result<bool>;
        fn c_m_S2(self: Pin<&mut CObj>, x: S2, k: i32) -> S2;
        fn c_cb_S2(f: fn(S2, i32) -> S2, k: i32) -> bool;
        fn c_run_S2(pos: i32, k: i32) -> i32;
        fn c_take_S3(x: S3, k: i32) -> bool;
        fn c_make_S3(k: i32) -> S3;
        fn c_try_S3(k: i32, fail: bool) -> Result<S3>;
        fn c_echo_S3(x: S3, k: i32) -> S3;
        fn c_mix_S3(a: u8, x: S3, b: f64, k: i32, y: S3, c: u16) -> Result<bool>;
        fn c_m_S3(self: &S3, x: S3, k: i32) -> S3;
        fn c_cb_S3(f: fn(S3, i32) -> S3, k: i32) -> bool;
        fn c_run_S3(pos: i32, k: i32) -> i32;
        fn c_take_S4(x: S4, k: i32) -> bool;
        fn c_make_S4(k: i32) -> S4;
        fn c_try_S4(k: i32, fail: bool) -> Result<S4>;
        fn c_echo_S4(x: S4, k: i32) -> S4;
        fn c_mix_S4(a: u8, x: S4, b: f64, k: i32, y: S4, c: u16) -> Result<bool>;
        fn c_m_S4(self: &mut S3, x: S4, k: i32) -> S4;
        fn c_cb_S4(f: fn(S4, i32) -> S4, k: i32) -> bool;
        fn c_run_S4(pos: i32, k: i32) -> i32;
        fn c_take_S5(x: S5, k: i32) -> bool;
        fn c_make_S5(k: i32) -> S5;
        fn c_try_S5(k: i32, fail: bool) -> Result<S5>;
        fn c_echo_S5(x: S5, k: i32) -> S5;
        fn c_mix_S5(a: u8, x: S5, b: f64, k: i32, y: S5, c: u16) -> Result<bool>;
        fn c_m_S5(self: &CObj, x: S5, k: i32) -> S5;
        fn c_cb_S5(f: fn(S5, i32) -> S5, k: i32) -> bool;
        fn c_run_S5(pos: i32, k: i32) -> i32;
        fn c_take_S6(x: S6, k: i32) -> bool;
        fn c_make_S6(k: i32) -> S6;
        fn c_try_S6(k: i32, fail: bool) -> Result<S6>;
        fn c_echo_S6(x: S6, k: i32) -> S6;
        fn c_mix_S6(a: u8, x: S6, b: f64, k: i32, y: S6, c: u16) -> Result<bool>;
        fn c_m_S6(self: Pin<&mut CObj>, x: S6, k: i32) -> S6;
        fn c_cb_S6(f: fn(S6, i32) -> S6, k: i32) -> bool;
        fn c_run_S6(pos: i32, k: i32) -> i32;
        fn c_take_S7(x: S7, k: i32) -> bool;
        fn c_make_S7(k: i32) -> S7;
        fn c_try_S7(k: i32, fail: bool) -> Result<S7>;
        fn c_echo_S7(x: S7, k: i32) -> S7;
        fn c_mix_S7(a: u8, x: S7, b: f64, k: i32, y: S7, c: u16) -> Result<bool>;
        fn c_m_S7(self: &S3, x: S7, k: i32) -> S7;
        fn c_cb_S7(f: fn(S7, i32) -> S7, k: i32) -> bool;
        fn c_run_S7(pos: i32, k: i32) -> i32;
        fn c_take_S8(x: S8, k: i32) -> bool;
        fn c_make_S8(k: i32) -> S8;
        fn c_try_S8(k: i32, fail: bool) -> Result<S8>;
        fn c_echo_S8(x: S8, k: i32) -> S8;
        fn c_mix_S8(a: u8, x: S8, b: f64, k: i32, y: S8, c: u16) -> Result<bool>;
        fn c_m_S8(self: &mut S3, x: S8, k: i32) -> S8;
        fn c_cb_S8(f: fn(S8, i32) -> S8, k: i32) -> bool;
        fn c_run_S8(pos: i32, k: i32) -> i32;
        fn c_take_S9(x: S9, k: i32) -> bool;
        fn c_make_S9(k: i32) -> S9;
        fn c_try_S9(k: i32, fail: bool) -> Result<S9>;
        fn c_echo_S9(x: S9, k: i32) -> S9;
        fn c_mix_S9(a: u8, x: S9, b: f64, k: i32, y: S9, c: u16) -> Result<bool>;
        fn c_m_S9(self: &CObj, x: S9, k: i32) -> S9;
        fn c_cb_S9(f: fn(S9, i32) -> S9, k: i32) -> bool;
        fn c_run_S9(pos: i32, k: i32) -> i32;
        fn c_take_S10(x: S10, k: i32) -> bool;
        fn c_make_S10(k: i32) -> S10;
        fn c_try_S10(k: i32, fail: bool) -> Result<S10>;
        fn c_echo_S10(x: S10, k: i32) -> S10;
        fn c_mix_S10(a: u8, x: S10, b: f64, k: i32, y: S10, c: u16) -> Result<bool>;
        fn c_m_S10(self: Pin<&mut CObj>, x: S10, k: i32) -> S10;
        fn c_cb_S10(f: fn(S10, i32) -> S10, k: i32) -> bool;
        fn c_run_S10(pos: i32, k: i32) -> i32;
        fn c_take_S11(x: S11, k: i32) -> bool;
        fn c_make_S11(k: i32) -> S11;
        fn c_try_S11(k: i32, fail: bool) -> Result<S11>;
        fn c_echo_S11(x: S11, k: i32) -> S11;
        fn c_mix_S11(a: u8, x: S11, b: f64, k: i32, y: S11, c: u16) -> Result<bool>;
        fn c_m_S11(self: &S3, x: S11, k: i32) -> S11;
        fn c_cb_S11(f: fn(S11, i32) -> S11, k: i32) -> bool;
        fn c_run_S11(pos: i32, k: i32) -> i32;
        fn c_take_S12(x: S12, k: i32) -> bool;
        fn c_make_S12(k: i32) -> S12;
        fn c_try_S12(k: i32, fail: bool) -> Result<S12>;
        fn c_echo_S12(x: S12, k: i32) -> S12;
        fn c_mix_S12(a: u8, x: S12, b: f64, k: i32, y: S12, c: u16) -> Result<bool>;
        fn c_m_S12(self: &mut S3, x: S12, k: i32) -> S12;
        fn c_cb_S12(f: fn(S12, i32) -> S12, k: i32) -> bool;
        fn c_run_S12(pos: i32, k: i32) -> i32;
        fn c_take_S13(x: S13, k: i32) -> bool;
        fn c_make_S13(k: i32) -> S13;
        fn c_try_S13(k: i32, fail: bool) -> Result<S13>;
        fn c_echo_S13(x: S13, k: i32) -> S13;
        fn c_mix_S13(a: u8, x: S13, b: f64, k: i32, y: S13, c: u16) -> Result<bool>;
        fn c_m_S13(self: &CObj, x: S13, k: i32) -> S13;
        fn c_cb_S13(f: fn(S13, i32) -> S13, k: i32) -> bool;
        fn c_run_S13(pos: i32, k: i32) -> i32;
        fn c_take_S14(x: S14, k: i32) -> bool;
        fn c_make_S14(k: i32) -> S14;
        fn c_try_S14(k: i32, fail: bool) -> Result<S14>;
        fn c_echo_S14(x: S14, k: i32) -> S14;
        fn c_mix_S14(a: u8, x: S14, b: f64, k: i32, y: S14, c: u16) -> Result<bool>;
        fn c_m_S14(self: Pin<&mut CObj>, x: S14, k: i32) -> S14;
        fn c_cb_S14(f: fn(S14, i32) -> S14, k: i32) -> bool;
        fn c_run_S14(pos: i32, k: i32) -> i32;
        fn c_take_S15(x: S15, k: i32) -> bool;
        fn c_make_S15(k: i32) -> S15;
        fn c_try_S15(k: i32, fail: bool) -> Result<S15>;
        fn c_echo_S15(x: S15, k: i32) -> S15;
        fn c_mix_S15(a: u8, x: S15, b: f64, k: i32, y: S15, c: u16) -> Result<bool>;
        fn c_m_S15(self: &S3, x: S15, k: i32) -> S15;
        fn c_cb_S15(f: fn(S15, i32) -> S15, k: i32) -> bool;
        fn c_run_S15(pos: i32, k: i32) -> i32;
        fn c_take_S16<'a>(x: S16<'a>, k: i32) -> bool;
        fn c_make_S16<'a>(z: &'a u8, k: i32) -> S16<'a>;
        fn c_try_S16<'a>(z: &'a u8, k: i32, fail: bool) -> Result<S16<'a>>;
        fn c_echo_S16<'a>(x: S16<'a>, k: i32) -> S16<'a>;
        fn c_mix_S16<'a>(a: u8, x: S16<'a>, b: f64, k: i32, y: S16<'a>, c: u16) -> Result<bool>;
        fn c_m_S16<'a>(self: &mut S3, x: S16<'a>, k: i32) -> bool;
        fn c_run_S16(pos: i32, k: i32) -> i32;
        fn c_take_S17(x: S17, k: i32) -> bool;
        fn c_make_S17(k: i32) -> S17;
        fn c_try_S17(k: i32, fail: bool) -> Result<S17>;
        fn c_echo_S17(x: S17, k: i32) -> S17;
        fn c_mix_S17(a: u8, x: S17, b: f64, k: i32, y: S17, c: u16) -> Result<bool>;
        fn c_m_S17(self: &CObj, x: S17, k: i32) -> S17;
        fn c_cb_S17(f: fn(S17, i32) -> S17, k: i32) -> bool;
        fn c_run_S17(pos: i32, k: i32) -> i32;
        fn c_take_S18(x: S18, k: i32) -> bool;
        fn c_make_S18(k: i32) -> S18;
        fn c_try_S18(k: i32, fail: bool) -> Result<S18>;
        fn c_echo_S18(x: S18, k: i32) -> S18;
        fn c_mix_S18(a: u8, x: S18, b: f64, k: i32, y: S18, c: u16) -> Result<bool>;
        fn c_m_S18(self: Pin<&mut CObj>, x: S18, k: i32) -> S18;
        fn c_cb_S18(f: fn(S18, i32) -> S18, k: i32) -> bool;
        fn c_run_S18(pos: i32, k: i32) -> i32;
        fn c_take_S19(x: S19, k: i32) -> bool;
        fn c_make_S19(k: i32) -> S19;
        fn c_try_S19(k: i32, fail: bool) -> Result<S19>;
        fn c_echo_S19(x: S19, k: i32) -> S19;
        fn c_mix_S19(a: u8, x: S19, b: f64, k: i32, y: S19, c: u16) -> Result<bool>;
        fn c_m_S19(self: &S3, x: S19, k: i32) -> S19;
        fn c_cb_S19(f: fn(S19, i32) -> S19, k: i32) -> bool;
        fn c_run_S19(pos: i32, k: i32) -> i32;
        fn c_take_S20(x: S20, k: i32) -> bool;
        fn c_make_S20(k: i32) -> S20;
        fn c_try_S20(k: i32, fail: bool) -> Result<S20>;
        fn c_echo_S20(x: S20, k: i32) -> S20;
        fn c_mix_S20(a: u8, x: S20, b: f64, k: i32, y: S20, c: u16) -> Result<bool>;
        fn c_m_S20(self: &mut S3, x: S20, k: i32) -> S20;
        fn c_cb_S20(f: fn(S20, i32) -> S20, k: i32) -> bool;
        fn c_run_S20(pos: i32, k: i32) -> i32;
        fn c_take_S21(x: S21, k: i32) -> bool;
        fn c_make_S21(k: i32) -> S21;
        fn c_try_S21(k: i32, fail: bool) -> Result<S21>;
        fn c_echo_S21(x: S21, k: i32) -> S21;
        fn c_mix_S21(a: u8, x: S21, b: f64, k: i32, y: S21, c: u16) -> Result<bool>;
        fn c_m_S21(self: &CObj, x: S21, k: i32) -> S21;
        fn c_cb_S21(f: fn(S21, i32) -> S21, k: i32) -> bool;
        fn c_run_S21(pos: i32, k: i32) -> i32;
        fn c_take_S22<'a>(x: S22<'a>, k: i32) -> bool;
        fn c_make_S22<'a>(z: &'a u8, k: i32) -> S22<'a>;
        fn c_try_S22<'a>(z: &'a u8, k: i32, fail: bool) -> Result<S22<'a>>;
        fn c_echo_S22<'a>(x: S22<'a>, k: i32) -> S22<'a>;
        fn c_mix_S22<'a>(a: u8, x: S22<'a>, b: f64, k: i32, y: S22<'a>, c: u16) -> Result<bool>;
        fn c_m_S22<'a>(self: Pin<&mut CObj>, x: S22<'a>, k: i32) -> bool;
        fn c_run_S22(pos: i32, k: i32) -> i32;
        fn c_take_S23<'a>(x: S23<'a>, k: i32) -> bool;
        fn c_make_S23<'a>(z: &'a u8, k: i32) -> S23<'a>;
        fn c_try_S23<'a>(z: &'a u8, k: i32, fail: bool) -> Result<S23<'a>>;
        fn c_echo_S23<'a>(x: S23<'a>, k: i32) -> S23<'a>;
        fn c_mix_S23<'a>(a: u8, x: S23<'a>, b: f64, k: i32, y: S23<'a>, c: u16) -> Result<bool>;
        fn c_m_S23<'a>(self: &S3, x: S23<'a>, k: i32) -> bool;
        fn c_run_S23(pos: i32, k: i32) -> i32;
        fn c_take_TrivA(x: TrivA, k: i32) -> bool;
        fn c_make_TrivA(k: i32) -> TrivA;
        fn c_try_TrivA(k: i32, fail: bool) -> Result<TrivA>;
        fn c_echo_TrivA(x: TrivA, k: i32) -> TrivA;
        fn c_mix_TrivA(a: u8, x: TrivA, b: f64, k: i32, y: TrivA, c: u16) -> Result<bool>;
        fn c_m_TrivA(self: &mut S3, x: TrivA, k: i32) -> TrivA;
        fn c_cb_TrivA(f: fn(TrivA, i32) -> TrivA, k: i32) -> bool;
        fn c_run_TrivA(pos: i32, k: i32) -> i32;
        fn c_take_TrivB(x: TrivB, k: i32) -> bool;
        fn c_make_TrivB(k: i32) -> TrivB;
        fn c_try_TrivB(k: i32, fail: bool) -> Result<TrivB>;
        fn c_echo_TrivB(x: TrivB, k: i32) -> TrivB;
        fn c_mix_TrivB(a: u8, x: TrivB, b: f64, k: i32, y: TrivB, c: u16) -> Result<bool>;
        fn c_m_TrivB(self: &CObj, x: TrivB, k: i32) -> TrivB;
        fn c_cb_TrivB(f: fn(TrivB, i32) -> TrivB, k: i32) -> bool;
        fn c_run_TrivB(pos: i32, k: i32) -> i32;
        fn c_take_TrivC(x: TrivC, k: i32) -> bool;
        fn c_make_TrivC(k: i32) -> TrivC;
        fn c_try_TrivC(k: i32, fail: bool) -> Result<TrivC>;
        fn c_echo_TrivC(x: TrivC, k: i32) -> TrivC;
        fn c_mix_TrivC(a: u8, x: TrivC, b: f64, k: i32, y: TrivC, c: u16) -> Result<bool>;
        fn c_m_TrivC(self: Pin<&mut CObj>, x: TrivC, k: i32) -> TrivC;
        fn c_cb_TrivC(f: fn(TrivC, i32) -> TrivC, k: i32) -> bool;
        fn c_run_TrivC(pos: i32, k: i32) -> i32;
        fn c_take_TrivD(x: TrivD, k: i32) -> bool;
        fn c_make_TrivD(k: i32) -> TrivD;
        fn c_try_TrivD(k: i32, fail: bool) -> Result<TrivD>;
        fn c_echo_TrivD(x: TrivD, k: i32) -> TrivD;
        fn c_mix_TrivD(a: u8, x: TrivD, b: f64, k: i32, y: TrivD, c: u16) -> Result<bool>;
        fn c_m_TrivD(self: &S3, x: TrivD, k: i32) -> TrivD;
        fn c_cb_TrivD(f: fn(TrivD, i32) -> TrivD, k: i32) -> bool;
        fn c_run_TrivD(pos: i32, k: i32) -> i32;
        fn c_take_TrivM(x: TrivM, k: i32) -> bool;
        fn c_make_TrivM(k: i32) -> TrivM;
        fn c_try_TrivM(k: i32, fail: bool) -> Result<TrivM>;
        fn c_echo_TrivM(x: TrivM, k: i32) -> TrivM;
        fn c_mix_TrivM(a: u8, x: TrivM, b: f64, k: i32, y: TrivM, c: u16) -> Result<bool>;
        fn c_m_TrivM(self: &mut S3, x: TrivM, k: i32) -> TrivM;
        fn c_cb_TrivM(f: fn(TrivM, i32) -> TrivM, k: i32) -> bool;
        fn c_run_TrivM(pos: i32, k: i32) -> i32;
        fn c_take_arr4_u8(x: [u8; 4], k: i32) -> bool;
        fn c_make_arr4_u8(k: i32) -> [u8; 4];
        fn c_try_arr4_u8(k: i32, fail: bool) -> Result<[u8; 4]>;
        fn c_echo_arr4_u8(x: [u8; 4], k: i32) -> [u8; 4];
        fn c_mix_arr4_u8(a: u8, x: [u8; 4], b: f64, k: i32, y: [u8; 4], c: u16) -> Result<bool>;
        fn c_m_arr4_u8(self: &CObj, x: [u8; 4], k: i32) -> [u8; 4];
        fn c_cb_arr4_u8(f: fn([u8; 4], i32) -> [u8; 4], k: i32) -> bool;
        fn c_run_arr4_u8(pos: i32, k: i32) -> i32;
        fn c_take_arr1_u32(x: [u32; 1], k: i32) -> bool;
        fn c_make_arr1_u32(k: i32) -> [u32; 1];
        fn c_try_arr1_u32(k: i32, fail: bool) -> Result<[u32; 1]>;
        fn c_echo_arr1_u32(x: [u32; 1], k: i32) -> [u32; 1];
        fn c_mix_arr1_u32(a: u8, x: [u32; 1], b: f64, k: i32, y: [u32; 1], c: u16) -> Result<bool>;
        fn c_m_arr1_u32(self: Pin<&mut CObj>, x: [u32; 1], k: i32) -> [u32; 1];
        fn c_cb_arr1_u32(f: fn([u32; 1], i32) -> [u32; 1], k: i32) -> bool;
        fn c_run_arr1_u32(pos: i32, k: i32) -> i32;
        fn c_take_arr2_String(x: [String; 2], k: i32) -> bool;
        fn c_make_arr2_String(k: i32) -> [String; 2];
        fn c_try_arr2_String(k: i32, fail: bool) -> Result<[String; 2]>;
        fn c_echo_arr2_String(x: [String; 2], k: i32) -> [String; 2];
        fn c_mix_arr2_String(a: u8, x: [String; 2], b: f64, k: i32, y: [String; 2], c: u16) -> Result<bool>;
        fn c_m_arr2_String(self: &S3, x: [String; 2], k: i32) -> [String; 2];
        fn c_cb_arr2_String(f: fn([String; 2], i32) -> [String; 2], k: i32) -> bool;
        fn c_run_arr2_String(pos: i32, k: i32) -> i32;
        fn c_take_arr3_S2(x: [S2; 3], k: i32) -> bool;
        fn c_make_arr3_S2(k: i32) -> [S2; 3];
        fn c_try_arr3_S2(k: i32, fail: bool) -> Result<[S2; 3]>;
        fn c_echo_arr3_S2(x: [S2; 3], k: i32) -> [S2; 3];
        fn c_mix_arr3_S2(a: u8, x: [S2; 3], b: f64, k: i32, y: [S2; 3], c: u16) -> Result<bool>;
        fn c_m_arr3_S2(self: &mut S3, x: [S2; 3], k: i32) -> [S2; 3];
        fn c_cb_arr3_S2(f: fn([S2; 3], i32) -> [S2; 3], k: i32) -> bool;
        fn c_run_arr3_S2(pos: i32, k: i32) -> i32;
        fn c_take_arr2_arr2_i32(x: [[i32; 2]; 2], k: i32) -> bool;
        fn c_make_arr2_arr2_i32(k: i32) -> [[i32; 2]; 2];
        fn c_try_arr2_arr2_i32(k: i32, fail: bool) -> Result<[[i32; 2]; 2]>;
        fn c_echo_arr2_arr2_i32(x: [[i32; 2]; 2], k: i32) -> [[i32; 2]; 2];
        fn c_mix_arr2_arr2_i32(a: u8, x: [[i32; 2]; 2], b: f64, k: i32, y: [[i32; 2]; 2], c: u16) -> Result<bool>;
        fn c_m_arr2_arr2_i32(self: &CObj, x: [[i32; 2]; 2], k: i32) -> [[i32; 2]; 2];
        fn c_cb_arr2_arr2_i32(f: fn([[i32; 2]; 2], i32) -> [[i32; 2]; 2], k: i32) -> bool;
        fn c_run_arr2_arr2_i32(pos: i32, k: i32) -> i32;
        fn c_take_arr2_Eu8(x: [Eu8; 2], k: i32) -> bool;
        fn c_make_arr2_Eu8(k: i32) -> [Eu8; 2];
        fn c_try_arr2_Eu8(k: i32, fail: bool) -> Result<[Eu8; 2]>;
        fn c_echo_arr2_Eu8(x: [Eu8; 2], k: i32) -> [Eu8; 2];
        fn c_mix_arr2_Eu8(a: u8, x: [Eu8; 2], b: f64, k: i32, y: [Eu8; 2], c: u16) -> Result<bool>;
        fn c_m_arr2_Eu8(self: Pin<&mut CObj>, x: [Eu8; 2], k: i32) -> [Eu8; 2];
        fn c_cb_arr2_Eu8(f: fn([Eu8; 2], i32) -> [Eu8; 2], k: i32) -> bool;
        fn c_run_arr2_Eu8(pos: i32, k: i32) -> i32;
        fn c_take_arr2_f64(x: [f64; 2], k: i32) -> bool;
        fn c_make_arr2_f64(k: i32) -> [f64; 2];
        fn c_try_arr2_f64(k: i32, fail: bool) -> Result<[f64; 2]>;
        fn c_echo_arr2_f64(x: [f64; 2], k: i32) -> [f64; 2];
        fn c_mix_arr2_f64(a: u8, x: [f64; 2], b: f64, k: i32, y: [f64; 2], c: u16) -> Result<bool>;
        fn c_m_arr2_f64(self: &S3, x: [f64; 2], k: i32) -> [f64; 2];
        fn c_cb_arr2_f64(f: fn([f64; 2], i32) -> [f64; 2], k: i32) -> bool;
        fn c_run_arr2_f64(pos: i32, k: i32) -> i32;
        fn c_take_arr9_bool(x: [bool; 9], k: i32) -> bool;
        fn c_make_arr9_bool(k: i32) -> [bool; 9];
        fn c_try_arr9_bool(k: i32, fail: bool) -> Result<[bool; 9]>;
        fn c_echo_arr9_bool(x: [bool; 9], k: i32) -> [bool; 9];
        fn c_mix_arr9_bool(a: u8, x: [bool; 9], b: f64, k: i32, y: [bool; 9], c: u16) -> Result<bool>;
        fn c_m_arr9_bool(self: &mut S3, x: [bool; 9], k: i32) -> [bool; 9];
        fn c_cb_arr9_bool(f: fn([bool; 9], i32) -> [bool; 9], k: i32) -> bool;
        fn c_run_arr9_bool(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> bool;
        fn c_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj>;
        fn c_try_UniquePtr_CObj(k: i32, fail: bool) -> Result<UniquePtr<CObj>>;
        fn c_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn c_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CObj(self: &CObj, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn c_cb_UniquePtr_CObj(f: fn(UniquePtr<CObj>, i32) -> UniquePtr<CObj>, k: i32) -> bool;
        fn c_run_UniquePtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> bool;
        fn c_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj>;
        fn c_try_SharedPtr_CObj(k: i32, fail: bool) -> Result<SharedPtr<CObj>>;
        fn c_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn c_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_SharedPtr_CObj(self: Pin<&mut CObj>, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn c_cb_SharedPtr_CObj(f: fn(SharedPtr<CObj>, i32) -> SharedPtr<CObj>, k: i32) -> bool;
        fn c_run_SharedPtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_UniquePtr_CxxString(x: UniquePtr<CxxString>, k: i32) -> bool;
        fn c_make_UniquePtr_CxxString(k: i32) -> UniquePtr<CxxString>;
        fn c_try_UniquePtr_CxxString(k: i32, fail: bool) -> Result<UniquePtr<CxxString>>;
        fn c_echo_UniquePtr_CxxString(x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString>;
        fn c_mix_UniquePtr_CxxString(a: u8, x: UniquePtr<CxxString>, b: f64, k: i32, y: UniquePtr<CxxString>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CxxString(self: &S3, x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString>;
        fn c_cb_UniquePtr_CxxString(f: fn(UniquePtr<CxxString>, i32) -> UniquePtr<CxxString>, k: i32) -> bool;
        fn c_run_UniquePtr_CxxString(pos: i32, k: i32) -> i32;
        fn c_store_CObj(k: i32) -> UniquePtr<CObj>;
    }
    extern "Rust" {
        type RObj;
        fn r_new(k: i32) -> Box<RObj>;
        fn r_tag(self: &RObj) -> i32;
        fn r_set(self: &mut RObj, k: i32);
        fn r_take_bool(x: bool, k: i32) -> bool;
        fn r_make_bool(k: i32) -> bool;
        fn r_try_bool(k: i32, fail: bool) -> Result<bool>;
        fn r_echo_bool(x: bool, k: i32) -> bool;
        fn r_mix_bool(a: u8, x: bool, b: f64, k: i32, y: bool, c: u16) -> Result<bool>;
        fn r_m_bool(self: &mut RObj, x: bool, k: i32) -> bool;
        fn r_take_u8(x: u8, k: i32) -> bool;
        fn r_make_u8(k: i32) -> u8;
        fn r_try_u8(k: i32, fail: bool) -> Result<u8>;
        fn r_echo_u8(x: u8, k: i32) -> u8;
        fn r_mix_u8(a: u8, x: u8, b: f64, k: i32, y: u8, c: u16) -> Result<bool>;
        fn r_m_u8(self: &S3, x: u8, k: i32) -> u8;
        fn r_take_i8(x: i8, k: i32) -> bool;
        fn r_make_i8(k: i32) -> i8;
        fn r_try_i8(k: i32, fail: bool) -> Result<i8>;
        fn r_echo_i8(x: i8, k: i32) -> i8;
        fn r_mix_i8(a: u8, x: i8, b: f64, k: i32, y: i8, c: u16) -> Result<bool>;
        fn r_m_i8(self: &mut S3, x: i8, k: i32) -> i8;
        fn r_take_u16(x: u16, k: i32) -> bool;
        fn r_make_u16(k: i32) -> u16;
        fn r_try_u16(k: i32, fail: bool) -> Result<u16>;
        fn r_echo_u16(x: u16, k: i32) -> u16;
        fn r_mix_u16(a: u8, x: u16, b: f64, k: i32, y: u16, c: u16) -> Result<bool>;
        fn r_m_u16(self: &RObj, x: u16, k: i32) -> u16;
        fn r_take_i16(x: i16, k: i32) -> bool;
        fn r_make_i16(k: i32) -> i16;
        fn r_try_i16(k: i32, fail: bool) -> Result<i16>;
        fn r_echo_i16(x: i16, k: i32) -> i16;
        fn r_mix_i16(a: u8, x: i16, b: f64, k: i32, y: i16, c: u16) -> Result<bool>;
        fn r_m_i16(self: &mut RObj, x: i16, k: i32) -> i16;
        fn r_take_u32(x: u32, k: i32) -> bool;
        fn r_make_u32(k: i32) -> u32;
        fn r_try_u32(k: i32, fail: bool) -> Result<u32>;
        fn r_echo_u32(x: u32, k: i32) -> u32;
        fn r_mix_u32(a: u8, x: u32, b: f64, k: i32, y: u32, c: u16) -> Result<bool>;
        fn r_m_u32(self: &S3, x: u32, k: i32) -> u32;
        fn r_take_i32(x: i32, k: i32) -> bool;
        fn r_make_i32(k: i32) -> i32;
        fn r_try_i32(k: i32, fail: bool) -> Result<i32>;
        fn r_echo_i32(x: i32, k: i32) -> i32;
        fn r_mix_i32(a: u8, x: i32, b: f64, k: i32, y: i32, c: u16) -> Result<bool>;
        fn r_m_i32(self: &mut S3, x: i32, k: i32) -> i32;
        fn r_take_u64(x: u64, k: i32) -> bool;
        fn r_make_u64(k: i32) -> u64;
        fn r_try_u64(k: i32, fail: bool) -> Result<u64>;
        fn r_echo_u64(x: u64, k: i32) -> u64;
        fn r_mix_u64(a: u8, x: u64, b: f64, k: i32, y: u64, c: u16) -> Result<bool>;
        fn r_m_u64(self: &RObj, x: u64, k: i32) -> u64;
        fn r_take_i64(x: i64, k: i32) -> bool;
        fn r_make_i64(k: i32) -> i64;
        fn r_try_i64(k: i32, fail: bool) -> Result<i64>;
        fn r_echo_i64(x: i64, k: i32) -> i64;
        fn r_mix_i64(a: u8, x: i64, b: f64, k: i32, y: i64, c: u16) -> Result<bool>;
        fn r_m_i64(self: &mut RObj, x: i64, k: i32) -> i64;
        fn r_take_usize(x: usize, k: i32) -> bool;
        fn r_make_usize(k: i32) -> usize;
        fn r_try_usize(k: i32, fail: bool) -> Result<usize>;
        fn r_echo_usize(x: usize, k: i32) -> usize;
        fn r_mix_usize(a: u8, x: usize, b: f64, k: i32, y: usize, c: u16) -> Result<bool>;
        fn r_m_usize(self: &S3, x: usize, k: i32) -> usize;
        fn r_take_isize(x: isize, k: i32) -> bool;
        fn r_make_isize(k: i32) -> isize;
        fn r_try_isize(k: i32, fail: bool) -> Result<isize>;
        fn r_echo_isize(x: isize, k: i32) -> isize;
        fn r_mix_isize(a: u8, x: isize, b: f64, k: i32, y: isize, c: u16) -> Result<bool>;
        fn r_m_isize(self: &mut S3, x: isize, k: i32) -> isize;
        fn r_take_c_char(x: c_char, k: i32) -> bool;
        fn r_make_c_char(k: i32) -> c_char;
        fn r_try_c_char(k: i32, fail: bool) -> Result<c_char>;
        fn r_echo_c_char(x: c_char, k: i32) -> c_char;
        fn r_mix_c_char(a: u8, x: c_char, b: f64, k: i32, y: c_char, c: u16) -> Result<bool>;
        fn r_m_c_char(self: &RObj, x: c_char, k: i32) -> c_char;
        fn r_take_f32(x: f32, k: i32) -> bool;
        fn r_make_f32(k: i32) -> f32;
        fn r_try_f32(k: i32, fail: bool) -> Result<f32>;
        fn r_echo_f32(x: f32, k: i32) -> f32;
        fn r_mix_f32(a: u8, x: f32, b: f64, k: i32, y: f32, c: u16) -> Result<bool>;
        fn r_m_f32(self: &mut RObj, x: f32, k: i32) -> f32;
        fn r_take_f64(x: f64, k: i32) -> bool;
        fn r_make_f64(k: i32) -> f64;
        fn r_try_f64(k: i32, fail: bool) -> Result<f64>;
        fn r_echo_f64(x: f64, k: i32) -> f64;
        fn r_mix_f64(a: u8, x: f64, b: f64, k: i32, y: f64, c: u16) -> Result<bool>;
        fn r_m_f64(self: &S3, x: f64, k: i32) -> f64;
        fn r_take_Eu8(x: Eu8, k: i32) -> bool;
        fn r_make_Eu8(k: i32) -> Eu8;
        fn r_try_Eu8(k: i32, fail: bool) -> Result<Eu8>;
        fn r_echo_Eu8(x: Eu8, k: i32) -> Eu8;
        fn r_mix_Eu8(a: u8, x: Eu8, b: f64, k: i32, y: Eu8, c: u16) -> Result<bool>;
        fn r_m_Eu8(self: &mut S3, x: Eu8, k: i32) -> Eu8;
        fn r_take_Ei8(x: Ei8, k: i32) -> bool;
        fn r_make_Ei8(k: i32) -> Ei8;
        fn r_try_Ei8(k: i32, fail: bool) -> Result<Ei8>;
        fn r_echo_Ei8(x: Ei8, k: i32) -> Ei8;
        fn r_mix_Ei8(a: u8, x: Ei8, b: f64, k: i32, y: Ei8, c: u16) -> Result<bool>;
        fn r_m_Ei8(self: &RObj, x: Ei8, k: i32) -> Ei8;
        fn r_take_Eu16(x: Eu16, k: i32) -> bool;
        fn r_make_Eu16(k: i32) -> Eu16;
        fn r_try_Eu16(k: i32, fail: bool) -> Result<Eu16>;
        fn r_echo_Eu16(x: Eu16, k: i32) -> Eu16;
        fn r_mix_Eu16(a: u8, x: Eu16, b: f64, k: i32, y: Eu16, c: u16) -> Result<bool>;
        fn r_m_Eu16(self: &mut RObj, x: Eu16, k: i32) -> Eu16;
        fn r_take_Ei32(x: Ei32, k: i32) -> bool;
        fn r_make_Ei32(k: i32) -> Ei32;
        fn r_try_Ei32(k: i32, fail: bool) -> Result<Ei32>;
        fn r_echo_Ei32(x: Ei32, k: i32) -> Ei32;
        fn r_mix_Ei32(a: u8, x: Ei32, b: f64, k: i32, y: Ei32, c: u16) -> Result<bool>;
        fn r_m_Ei32(self: &S3, x: Ei32, k: i32) -> Ei32;
        fn r_take_Eu32(x: Eu32, k: i32) -> bool;
        fn r_make_Eu32(k: i32) -> Eu32;
        fn r_try_Eu32(k: i32, fail: bool) -> Result<Eu32>;
        fn r_echo_Eu32(x: Eu32, k: i32) -> Eu32;
        fn r_mix_Eu32(a: u8, x: Eu32, b: f64, k: i32, y: Eu32, c: u16) -> Result<bool>;
        fn r_m_Eu32(self: &mut S3, x: Eu32, k: i32) -> Eu32;
        fn r_take_Ei64(x: Ei64, k: i32) -> bool;
        fn r_make_Ei64(k: i32) -> Ei64;
        fn r_try_Ei64(k: i32, fail: bool) -> Result<Ei64>;
        fn r_echo_Ei64(x: Ei64, k: i32) -> Ei64;
        fn r_mix_Ei64(a: u8, x: Ei64, b: f64, k: i32, y: Ei64, c: u16) -> Result<bool>;
        fn r_m_Ei64(self: &RObj, x: Ei64, k: i32) -> Ei64;
        fn r_take_Eu64(x: Eu64, k: i32) -> bool;
        fn r_make_Eu64(k: i32) -> Eu64;
        fn r_try_Eu64(k: i32, fail: bool) -> Result<Eu64>;
        fn r_echo_Eu64(x: Eu64, k: i32) -> Eu64;
        fn r_mix_Eu64(a: u8, x: Eu64, b: f64, k: i32, y: Eu64, c: u16) -> Result<bool>;
        fn r_m_Eu64(self: &mut RObj, x: Eu64, k: i32) -> Eu64;
        fn r_take_XE(x: XE, k: i32) -> bool;
        fn r_make_XE(k: i32) -> XE;
        fn r_try_XE(k: i32, fail: bool) -> Result<XE>;
        fn r_echo_XE(x: XE, k: i32) -> XE;
        fn r_mix_XE(a: u8, x: XE, b: f64, k: i32, y: XE, c: u16) -> Result<bool>;
        fn r_m_XE(self: &S3, x: XE, k: i32) -> XE;
        fn r_take_str(x: &str, k: i32) -> bool;
        fn r_make_str(z: &u8, k: i32) -> &str;
        fn r_try_str(z: &u8, k: i32, fail: bool) -> Result<&str>;
        fn r_echo_str(x: &str, k: i32) -> &str;
        fn r_mix_str(a: u8, x: &str, b: f64, k: i32, y: &str, c: u16) -> Result<bool>;
        fn r_m_str(self: &mut S3, x: &str, k: i32) -> bool;
        fn r_take_String(x: String, k: i32) -> bool;
        fn r_make_String(k: i32) -> String;
        fn r_try_String(k: i32, fail: bool) -> Result<String>;
        fn r_echo_String(x: String, k: i32) -> String;
        fn r_mix_String(a: u8, x: String, b: f64, k: i32, y: String, c: u16) -> Result<bool>;
        fn r_m_String(self: &RObj, x: String, k: i32) -> String;
        fn r_take_S1(x: S1, k: i32) -> bool;
        fn r_make_S1(k: i32) -> S1;
        fn r_try_S1(k: i32, fail: bool) -> Result<S1>;
        fn r_echo_S1(x: S1, k: i32) -> S1;
        fn r_mix_S1(a: u8, x: S1, b: f64, k: i32, y: S1, c: u16) -> Result<bool>;
        fn r_m_S1(self: &mut RObj, x: S1, k: i32) -> S1;
        fn r_take_S2(x: S2, k: i32) -> bool;
        fn r_make_S2(k: i32) -> S2;
        fn r_try_S2(k: i32, fail: bool) -> Result<S2>;
        fn r_echo_S2(x: S2, k: i32) -> S2;
        fn r_mix_S2(a: u8, x: S2, b: f64, k: i32, y: S2, c: u16) -> Result<bool>;
        fn r_m_S2(self: &S3, x: S2, k: i32) -> S2;
        fn r_take_S3(x: S3, k: i32) -> bool;
        fn r_make_S3(k: i32) -> S3;
        fn r_try_S3(k: i32, fail: bool) -> Result<S3>;
        fn r_echo_S3(x: S3, k: i32) -> S3;
        fn r_mix_S3(a: u8, x: S3, b: f64, k: i32, y: S3, c: u16) -> Result<bool>;
        fn r_m_S3(self: &mut S3, x: S3, k: i32) -> S3;
        fn r_take_S4(x: S4, k: i32) -> bool;
        fn r_make_S4(k: i32) -> S4;
        fn r_try_S4(k: i32, fail: bool) -> Result<S4>;
        fn r_echo_S4(x: S4, k: i32) -> S4;
        fn r_mix_S4(a: u8, x: S4, b: f64, k: i32, y: S4, c: u16) -> Result<bool>;
        fn r_m_S4(self: &RObj, x: S4, k: i32) -> S4;
        fn r_take_S5(x: S5, k: i32) -> bool;
        fn r_make_S5(k: i32) -> S5;
        fn r_try_S5(k: i32, fail: bool) -> Result<S5>;
        fn r_echo_S5(x: S5, k: i32) -> S5;
        fn r_mix_S5(a: u8, x: S5, b: f64, k: i32, y: S5, c: u16) -> Result<bool>;
        fn r_m_S5(self: &mut RObj, x: S5, k: i32) -> S5;
        fn r_take_S6(x: S6, k: i32) -> bool;
        fn r_make_S6(k: i32) -> S6;
        fn r_try_S6(k: i32, fail: bool) -> Result<S6>;
        fn r_echo_S6(x: S6, k: i32) -> S6;
        fn r_mix_S6(a: u8, x: S6, b: f64, k: i32, y: S6, c: u16) -> Result<bool>;
        fn r_m_S6(self: &S3, x: S6, k: i32) -> S6;
        fn r_take_S7(x: S7, k: i32) -> bool;
        fn r_make_S7(k: i32) -> S7;
        fn r_try_S7(k: i32, fail: bool) -> Result<S7>;
        fn r_echo_S7(x: S7, k: i32) -> S7;
        fn r_mix_S7(a: u8, x: S7, b: f64, k: i32, y: S7, c: u16) -> Result<bool>;
        fn r_m_S7(self: &mut S3, x: S7, k: i32) -> S7;
        fn r_take_S8(x: S8, k: i32) -> bool;
        fn r_make_S8(k: i32) -> S8;
        fn r_try_S8(k: i32, fail: bool) -> Result<S8>;
        fn r_echo_S8(x: S8, k: i32) -> S8;
        fn r_mix_S8(a: u8, x: S8, b: f64, k: i32, y: S8, c: u16) -> Result<bool>;
        fn r_m_S8(self: &RObj, x: S8, k: i32) -> S8;
        fn r_take_S9(x: S9, k: i32) -> bool;
        fn r_make_S9(k: i32) -> S9;
        fn r_try_S9(k: i32, fail: bool) -> Result<S9>;
        fn r_echo_S9(x: S9, k: i32) -> S9;
        fn r_mix_S9(a: u8, x: S9, b: f64, k: i32, y: S9, c: u16) -> Result<bool>;
        fn r_m_S9(self: &mut RObj, x: S9, k: i32) -> S9;
        fn r_take_S10(x: S10, k: i32) -> bool;
        fn r_make_S10(k: i32) -> S10;
        fn r_try_S10(k: i32, fail: bool) -> Result<S10>;
        fn r_echo_S10(x: S10, k: i32) -> S10;
        fn r_mix_S10(a: u8, x: S10, b: f64, k: i32, y: S10, c: u16) -> Result<bool>;
        fn r_m_S10(self: &S3, x: S10, k: i32) -> S10;
        fn r_take_S11(x: S11, k: i32) -> bool;
        fn r_make_S11(k: i32) -> S11;
        fn r_try_S11(k: i32, fail: bool) -> Result<S11>;
        fn r_echo_S11(x: S11, k: i32) -> S11;
        fn r_mix_S11(a: u8, x: S11, b: f64, k: i32, y: S11, c: u16) -> Result<bool>;
        fn r_m_S11(self: &mut S3, x: S11, k: i32) -> S11;
        fn r_take_S12(x: S12, k: i32) -> bool;
        fn r_make_S12(k: i32) -> S12;
        fn r_try_S12(k: i32, fail: bool) -> Result<S12>;
        fn r_echo_S12(x: S12, k: i32) -> S12;
        fn r_mix_S12(a: u8, x: S12, b: f64, k: i32, y: S12, c: u16) -> Result<bool>;
        fn r_m_S12(self: &RObj, x: S12, k: i32) -> S12;
        fn r_take_S13(x: S13, k: i32) -> bool;
        fn r_make_S13(k: i32) -> S13;
        fn r_try_S13(k: i32, fail: bool) -> Result<S13>;
        fn r_echo_S13(x: S13, k: i32) -> S13;
        fn r_mix_S13(a: u8, x: S13, b: f64, k: i32, y: S13, c: u16) -> Result<bool>;
        fn r_m_S13(self: &mut RObj, x: S13, k: i32) -> S13;
        fn r_take_S14(x: S14, k: i32) -> bool;
        fn r_make_S14(k: i32) -> S14;
        fn r_try_S14(k: i32, fail: bool) -> Result<S14>;
        fn r_echo_S14(x: S14, k: i32) -> S14;
        fn r_mix_S14(a: u8, x: S14, b: f64, k: i32, y: S14, c: u16) -> Result<bool>;
        fn r_m_S14(self: &S3, x: S14, k: i32) -> S14;
        fn r_take_S15(x: S15, k: i32) -> bool;
        fn r_make_S15(k: i32) -> S15;
        fn r_try_S15(k: i32, fail: bool) -> Result<S15>;
        fn r_echo_S15(x: S15, k: i32) -> S15;
        fn r_mix_S15(a: u8, x: S15, b: f64, k: i32, y: S15, c: u16) -> Result<bool>;
        fn r_m_S15(self: &mut S3, x: S15, k: i32) -> S15;
        unsafe fn r_take_S16<'a>(x: S16<'a>, k: i32) -> bool;
        unsafe fn r_make_S16<'a>(z: &'a u8, k: i32) -> S16<'a>;
        unsafe fn r_try_S16<'a>(z: &'a u8, k: i32, fail: bool) -> Result<S16<'a>>;
        unsafe fn r_echo_S16<'a>(x: S16<'a>, k: i32) -> S16<'a>;
        unsafe fn r_mix_S16<'a>(a: u8, x: S16<'a>, b: f64, k: i32, y: S16<'a>, c: u16) -> Result<bool>;
        unsafe fn r_m_S16<'a>(self: &RObj, x: S16<'a>, k: i32) -> bool;
        fn r_take_S17(x: S17, k: i32) -> bool;
        fn r_make_S17(k: i32) -> S17;
        fn r_try_S17(k: i32, fail: bool) -> Result<S17>;
        fn r_echo_S17(x: S17, k: i32) -> S17;
        fn r_mix_S17(a: u8, x: S17, b: f64, k: i32, y: S17, c: u16) -> Result<bool>;
        fn r_m_S17(self: &mut RObj, x: S17, k: i32) -> S17;
        fn r_take_S18(x: S18, k: i32) -> bool;
        fn r_make_S18(k: i32) -> S18;
        fn r_try_S18(k: i32, fail: bool) -> Result<S18>;
        fn r_echo_S18(x: S18, k: i32) -> S18;
        fn r_mix_S18(a: u8, x: S18, b: f64, k: i32, y: S18, c: u16) -> Result<bool>;
        fn r_m_S18(self: &S3, x: S18, k: i32) -> S18;
        fn r_take_S19(x: S19, k: i32) -> bool;
        fn r_make_S19(k: i32) -> S19;
        fn r_try_S19(k: i32, fail: bool) -> Result<S19>;
        fn r_echo_S19(x: S19, k: i32) -> S19;
        fn r_mix_S19(a: u8, x: S19, b: f64, k: i32, y: S19, c: u16) -> Result<bool>;
        fn r_m_S19(self: &mut S3, x: S19, k: i32) -> S19;
        fn r_take_S20(x: S20, k: i32) -> bool;
        fn r_make_S20(k: i32) -> S20;
        fn r_try_S20(k: i32, fail: bool) -> Result<S20>;
        fn r_echo_S20(x: S20, k: i32) -> S20;
        fn r_mix_S20(a: u8, x: S20, b: f64, k: i32, y: S20, c: u16) -> Result<bool>;
        fn r_m_S20(self: &RObj, x: S20, k: i32) -> S20;
        fn r_take_S21(x: S21, k: i32) -> bool;
        fn r_make_S21(k: i32) -> S21;
        fn r_try_S21(k: i32, fail: bool) -> Result<S21>;
        fn r_echo_S21(x: S21, k: i32) -> S21;
        fn r_mix_S21(a: u8, x: S21, b: f64, k: i32, y: S21, c: u16) -> Result<bool>;
        fn r_m_S21(self: &mut RObj, x: S21, k: i32) -> S21;
        unsafe fn r_take_S22<'a>(x: S22<'a>, k: i32) -> bool;
        unsafe fn r_make_S22<'a>(z: &'a u8, k: i32) -> S22<'a>;
        unsafe fn r_try_S22<'a>(z: &'a u8, k: i32, fail: bool) -> Result<S22<'a>>;
        unsafe fn r_echo_S22<'a>(x: S22<'a>, k: i32) -> S22<'a>;
        unsafe fn r_mix_S22<'a>(a: u8, x: S22<'a>, b: f64, k: i32, y: S22<'a>, c: u16) -> Result<bool>;
        unsafe fn r_m_S22<'a>(self: &S3, x: S22<'a>, k: i32) -> bool;
        unsafe fn r_take_S23<'a>(x: S23<'a>, k: i32) -> bool;
        unsafe fn r_make_S23<'a>(z: &'a u8, k: i32) -> S23<'a>;
        unsafe fn r_try_S23<'a>(z: &'a u8, k: i32, fail: bool) -> Result<S23<'a>>;
        unsafe fn r_echo_S23<'a>(x: S23<'a>, k: i32) -> S23<'a>;
        unsafe fn r_mix_S23<'a>(a: u8, x: S23<'a>, b: f64, k: i32, y: S23<'a>, c: u16) -> Result<bool>;
        unsafe fn r_m_S23<'a>(self: &mut S3, x: S23<'a>, k: i32) -> bool;
        fn r_take_TrivA(x: TrivA, k: i32) -> bool;
        fn r_make_TrivA(k: i32) -> TrivA;
        fn r_try_TrivA(k: i32, fail: bool) -> Result<TrivA>;
        fn r_echo_TrivA(x: TrivA, k: i32) -> TrivA;
        fn r_mix_TrivA(a: u8, x: TrivA, b: f64, k: i32, y: TrivA, c: u16) -> Result<bool>;
        fn r_m_TrivA(self: &RObj, x: TrivA, k: i32) -> TrivA;
        fn r_take_TrivB(x: TrivB, k: i32) -> bool;
        fn r_make_TrivB(k: i32) -> TrivB;
        fn r_try_TrivB(k: i32, fail: bool) -> Result<TrivB>;
        fn r_echo_TrivB(x: TrivB, k: i32) -> TrivB;
        fn r_mix_TrivB(a: u8, x: TrivB, b: f64, k: i32, y: TrivB, c: u16) -> Result<bool>;
        fn r_m_TrivB(self: &mut RObj, x: TrivB, k: i32) -> TrivB;
        fn r_take_TrivC(x: TrivC, k: i32) -> bool;
        fn r_make_TrivC(k: i32) -> TrivC;
        fn r_try_TrivC(k: i32, fail: bool) -> Result<TrivC>;
        fn r_echo_TrivC(x: TrivC, k: i32) -> TrivC;
        fn r_mix_TrivC(a: u8, x: TrivC, b: f64, k: i32, y: TrivC, c: u16) -> Result<bool>;
        fn r_m_TrivC(self: &S3, x: TrivC, k: i32) -> TrivC;
        fn r_take_TrivD(x: TrivD, k: i32) -> bool;
        fn r_make_TrivD(k: i32) -> TrivD;
        fn r_try_TrivD(k: i32, fail: bool) -> Result<TrivD>;
        fn r_echo_TrivD(x: TrivD, k: i32) -> TrivD;
        fn r_mix_TrivD(a: u8, x: TrivD, b: f64, k: i32, y: TrivD, c: u16) -> Result<bool>;
        fn r_m_TrivD(self: &mut S3, x: TrivD, k: i32) -> TrivD;
        fn r_take_TrivM(x: TrivM, k: i32) -> bool;
        fn r_make_TrivM(k: i32) -> TrivM;
        fn r_try_TrivM(k: i32, fail: bool) -> Result<TrivM>;
        fn r_echo_TrivM(x: TrivM, k: i32) -> TrivM;
        fn r_mix_TrivM(a: u8, x: TrivM, b: f64, k: i32, y: TrivM, c: u16) -> Result<bool>;
        fn r_m_TrivM(self: &RObj, x: TrivM, k: i32) -> TrivM;
        fn r_take_arr4_u8(x: [u8; 4], k: i32) -> bool;
        fn r_make_arr4_u8(k: i32) -> [u8; 4];
        fn r_try_arr4_u8(k: i32, fail: bool) -> Result<[u8; 4]>;
        fn r_echo_arr4_u8(x: [u8; 4], k: i32) -> [u8; 4];
        fn r_mix_arr4_u8(a: u8, x: [u8; 4], b: f64, k: i32, y: [u8; 4], c: u16) -> Result<bool>;
        fn r_m_arr4_u8(self: &mut RObj, x: [u8; 4], k: i32) -> [u8; 4];
        fn r_take_arr1_u32(x: [u32; 1], k: i32) -> bool;
        fn r_make_arr1_u32(k: i32) -> [u32; 1];
        fn r_try_arr1_u32(k: i32, fail: bool) -> Result<[u32; 1]>;
        fn r_echo_arr1_u32(x: [u32; 1], k: i32) -> [u32; 1];
        fn r_mix_arr1_u32(a: u8, x: [u32; 1], b: f64, k: i32, y: [u32; 1], c: u16) -> Result<bool>;
        fn r_m_arr1_u32(self: &S3, x: [u32; 1], k: i32) -> [u32; 1];
        fn r_take_arr2_String(x: [String; 2], k: i32) -> bool;
        fn r_make_arr2_String(k: i32) -> [String; 2];
        fn r_try_arr2_String(k: i32, fail: bool) -> Result<[String; 2]>;
        fn r_echo_arr2_String(x: [String; 2], k: i32) -> [String; 2];
        fn r_mix_arr2_String(a: u8, x: [String; 2], b: f64, k: i32, y: [String; 2], c: u16) -> Result<bool>;
        fn r_m_arr2_String(self: &mut S3, x: [String; 2], k: i32) -> [String; 2];
        fn r_take_arr3_S2(x: [S2; 3], k: i32) -> bool;
        fn r_make_arr3_S2(k: i32) -> [S2; 3];
        fn r_try_arr3_S2(k: i32, fail: bool) -> Result<[S2; 3]>;
        fn r_echo_arr3_S2(x: [S2; 3], k: i32) -> [S2; 3];
        fn r_mix_arr3_S2(a: u8, x: [S2; 3], b: f64, k: i32, y: [S2; 3], c: u16) -> Result<bool>;
        fn r_m_arr3_S2(self: &RObj, x: [S2; 3], k: i32) -> [S2; 3];
        fn r_take_arr2_arr2_i32(x: [[i32; 2]; 2], k: i32) -> bool;
        fn r_make_arr2_arr2_i32(k: i32) -> [[i32; 2]; 2];
        fn r_try_arr2_arr2_i32(k: i32, fail: bool) -> Result<[[i32; 2]; 2]>;
        fn r_echo_arr2_arr2_i32(x: [[i32; 2]; 2], k: i32) -> [[i32; 2]; 2];
        fn r_mix_arr2_arr2_i32(a: u8, x: [[i32; 2]; 2], b: f64, k: i32, y: [[i32; 2]; 2], c: u16) -> Result<bool>;
        fn r_m_arr2_arr2_i32(self: &mut RObj, x: [[i32; 2]; 2], k: i32) -> [[i32; 2]; 2];
        fn r_take_arr2_Eu8(x: [Eu8; 2], k: i32) -> bool;
        fn r_make_arr2_Eu8(k: i32) -> [Eu8; 2];
        fn r_try_arr2_Eu8(k: i32, fail: bool) -> Result<[Eu8; 2]>;
        fn r_echo_arr2_Eu8(x: [Eu8; 2], k: i32) -> [Eu8; 2];
        fn r_mix_arr2_Eu8(a: u8, x: [Eu8; 2], b: f64, k: i32, y: [Eu8; 2], c: u16) -> Result<bool>;
        fn r_m_arr2_Eu8(self: &S3, x: [Eu8; 2], k: i32) -> [Eu8; 2];
        fn r_take_arr2_f64(x: [f64; 2], k: i32) -> bool;
        fn r_make_arr2_f64(k: i32) -> [f64; 2];
        fn r_try_arr2_f64(k: i32, fail: bool) -> Result<[f64; 2]>;
        fn r_echo_arr2_f64(x: [f64; 2], k: i32) -> [f64; 2];
        fn r_mix_arr2_f64(a: u8, x: [f64; 2], b: f64, k: i32, y: [f64; 2], c: u16) -> Result<bool>;
        fn r_m_arr2_f64(self: &mut S3, x: [f64; 2], k: i32) -> [f64; 2];
        fn r_take_arr9_bool(x: [bool; 9], k: i32) -> bool;
        fn r_make_arr9_bool(k: i32) -> [bool; 9];
        fn r_try_arr9_bool(k: i32, fail: bool) -> Result<[bool; 9]>;
        fn r_echo_arr9_bool(x: [bool; 9], k: i32) -> [bool; 9];
        fn r_mix_arr9_bool(a: u8, x: [bool; 9], b: f64, k: i32, y: [bool; 9], c: u16) -> Result<bool>;
        fn r_m_arr9_bool(self: &RObj, x: [bool; 9], k: i32) -> [bool; 9];
        fn r_take_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> bool;
        fn r_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj>;
        fn r_try_UniquePtr_CObj(k: i32, fail: bool) -> Result<UniquePtr<CObj>>;
        fn r_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn r_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CObj(self: &mut RObj, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn r_take_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> bool;
        fn r_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj>;
        fn r_try_SharedPtr_CObj(k: i32, fail: bool) -> Result<SharedPtr<CObj>>;
        fn r_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn r_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_SharedPtr_CObj(self: &S3, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn r_take_UniquePtr_CxxString(x: UniquePtr<CxxString>, k: i32) -> bool;
        fn r_make_UniquePtr_CxxString(k: i32) -> UniquePtr<CxxString>;
        fn r_try_UniquePtr_CxxString(k: i32, fail: bool) -> Result<UniquePtr<CxxString>>;
        fn r_echo_UniquePtr_CxxString(x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString>;
        fn r_mix_UniquePtr_CxxString(a: u8, x: UniquePtr<CxxString>, b: f64, k: i32, y: UniquePtr<CxxString>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CxxString(self: &mut S3, x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString>;
    }
}
#[repr(C)] pub struct TrivA { pub f0: i32 }
unsafe impl cxx::ExternType for TrivA { type Id = cxx::type_id!("c09a::TrivA"); type Kind = cxx::kind::Trivial; }
#[repr(C)] pub struct TrivB { pub f0: f64, pub f1: f64 }
unsafe impl cxx::ExternType for TrivB { type Id = cxx::type_id!("c09a::TrivB"); type Kind = cxx::kind::Trivial; }
#[repr(C)] pub struct TrivC { pub f0: u64, pub f1: u8, pub f2: u64, pub f3: u16 }
unsafe impl cxx::ExternType for TrivC { type Id = cxx::type_id!("c09a::TrivC"); type Kind = cxx::kind::Trivial; }
#[repr(C)] pub struct TrivD { pub f0: f32, pub f1: i32 }
unsafe impl cxx::ExternType for TrivD { type Id = cxx::type_id!("c09a::TrivD"); type Kind = cxx::kind::Trivial; }
#[repr(C)] pub struct TrivM { pub f0: i32, pub f1: u8 }
unsafe impl cxx::ExternType for TrivM { type Id = cxx::type_id!("c09a::TrivM"); type Kind = cxx::kind::Trivial; }
fn mk_f32(k: i32) -> f32 { f32::from_bits([0x80000000, 0x7f800000, 0x3fc00000, 0x7fc00001][k as usize]) }
fn ck_f32(v: &f32, k: i32) -> bool { v.to_bits() == mk_f32(k).to_bits() }
fn ad_f32(v: &f32) -> usize { 0 }
fn mk_S3(k: i32) -> S3 { S3 { f0: mk_f32((k + 0) & 3), f1: mk_f32((k + 1) & 3) } }
fn ck_S3(v: &S3, k: i32) -> bool { ck_f32(&v.f0, (k + 0) & 3) && ck_f32(&v.f1, (k + 1) & 3) }
fn ad_S3(v: &S3) -> usize { 0 }
fn mk_bool(k: i32) -> bool { k & 1 == 1 }
fn ck_bool(v: &bool, k: i32) -> bool { *v == (k & 1 == 1) }
fn ad_bool(v: &bool) -> usize { 0 }
fn mk_u8(k: i32) -> u8 { [0, 1, 128, 255][k as usize] }
fn ck_u8(v: &u8, k: i32) -> bool { *v == mk_u8(k) }
fn ad_u8(v: &u8) -> usize { 0 }
fn mk_i8(k: i32) -> i8 { [0, 1, -128, 127][k as usize] }
fn ck_i8(v: &i8, k: i32) -> bool { *v == mk_i8(k) }
fn ad_i8(v: &i8) -> usize { 0 }
fn mk_u16(k: i32) -> u16 { [0, 1, 32768, 65535][k as usize] }
fn ck_u16(v: &u16, k: i32) -> bool { *v == mk_u16(k) }
fn ad_u16(v: &u16) -> usize { 0 }
fn mk_i16(k: i32) -> i16 { [0, 1, -32768, 32767][k as usize] }
fn ck_i16(v: &i16, k: i32) -> bool { *v == mk_i16(k) }
fn ad_i16(v: &i16) -> usize { 0 }
fn mk_u32(k: i32) -> u32 { [0, 1, 2147483648, 4294967295][k as usize] }
fn ck_u32(v: &u32, k: i32) -> bool { *v == mk_u32(k) }
fn ad_u32(v: &u32) -> usize { 0 }
fn mk_i32(k: i32) -> i32 { [0, 1, -2147483648, 2147483647][k as usize] }
fn ck_i32(v: &i32, k: i32) -> bool { *v == mk_i32(k) }
fn ad_i32(v: &i32) -> usize { 0 }
fn mk_u64(k: i32) -> u64 { [0, 1, 9223372036854775808, 18446744073709551615][k as usize] }
fn ck_u64(v: &u64, k: i32) -> bool { *v == mk_u64(k) }
fn ad_u64(v: &u64) -> usize { 0 }
fn mk_i64(k: i32) -> i64 { [0, 1, -9223372036854775808, 9223372036854775807][k as usize] }
fn ck_i64(v: &i64, k: i32) -> bool { *v == mk_i64(k) }
fn ad_i64(v: &i64) -> usize { 0 }
fn mk_usize(k: i32) -> usize { [0, 1, 9223372036854775808, 18446744073709551615][k as usize] }
fn ck_usize(v: &usize, k: i32) -> bool { *v == mk_usize(k) }
fn ad_usize(v: &usize) -> usize { 0 }
fn mk_isize(k: i32) -> isize { [0, 1, -9223372036854775808, 9223372036854775807][k as usize] }
fn ck_isize(v: &isize, k: i32) -> bool { *v == mk_isize(k) }
fn ad_isize(v: &isize) -> usize { 0 }
fn mk_c_char(k: i32) -> c_char { [0u8, b'a', 0x80, 0xff][k as usize] as c_char }
fn ck_c_char(v: &c_char, k: i32) -> bool { *v == mk_c_char(k) }
fn ad_c_char(v: &c_char) -> usize { 0 }
fn mk_f64(k: i32) -> f64 { f64::from_bits([0x8000000000000000, 0xfff0000000000000, 0x3ff8000000000000, 0x7ff8000000000123][k as usize]) }
fn ck_f64(v: &f64, k: i32) -> bool { v.to_bits() == mk_f64(k).to_bits() }
fn ad_f64(v: &f64) -> usize { 0 }
fn mk_Eu8(k: i32) -> Eu8 { [Eu8::V0, Eu8::V1, Eu8::V2, Eu8::V3][k as usize] }
fn ck_Eu8(v: &Eu8, k: i32) -> bool { *v == mk_Eu8(k) && v.repr == [0, 1, 128, 255][k as usize] }
fn ad_Eu8(v: &Eu8) -> usize { 0 }
fn mk_Ei8(k: i32) -> Ei8 { [Ei8::V0, Ei8::V1, Ei8::V2, Ei8::V3][k as usize] }
fn ck_Ei8(v: &Ei8, k: i32) -> bool { *v == mk_Ei8(k) && v.repr == [0, 1, -128, 127][k as usize] }
fn ad_Ei8(v: &Ei8) -> usize { 0 }
fn mk_Eu16(k: i32) -> Eu16 { [Eu16::V0, Eu16::V1, Eu16::V2, Eu16::V3][k as usize] }
fn ck_Eu16(v: &Eu16, k: i32) -> bool { *v == mk_Eu16(k) && v.repr == [0, 1, 32768, 65535][k as usize] }
fn ad_Eu16(v: &Eu16) -> usize { 0 }
fn mk_Ei32(k: i32) -> Ei32 { [Ei32::V0, Ei32::V1, Ei32::V2, Ei32::V3][k as usize] }
fn ck_Ei32(v: &Ei32, k: i32) -> bool { *v == mk_Ei32(k) && v.repr == [-1, 0, 2147483647, -2147483648][k as usize] }
fn ad_Ei32(v: &Ei32) -> usize { 0 }
fn mk_Eu32(k: i32) -> Eu32 { [Eu32::V0, Eu32::V1, Eu32::V2, Eu32::V3][k as usize] }
fn ck_Eu32(v: &Eu32, k: i32) -> bool { *v == mk_Eu32(k) && v.repr == [0, 7, 2147483648, 4294967295][k as usize] }
fn ad_Eu32(v: &Eu32) -> usize { 0 }
fn mk_Ei64(k: i32) -> Ei64 { [Ei64::V0, Ei64::V1, Ei64::V2, Ei64::V3][k as usize] }
fn ck_Ei64(v: &Ei64, k: i32) -> bool { *v == mk_Ei64(k) && v.repr == [-1, 1, 1099511627776, 9223372036854775807][k as usize] }
fn ad_Ei64(v: &Ei64) -> usize { 0 }
fn mk_Eu64(k: i32) -> Eu64 { [Eu64::V0, Eu64::V1, Eu64::V2, Eu64::V3][k as usize] }
fn ck_Eu64(v: &Eu64, k: i32) -> bool { *v == mk_Eu64(k) && v.repr == [0, 1, 8589934592, 4611686018427387904][k as usize] }
fn ad_Eu64(v: &Eu64) -> usize { 0 }
fn mk_XE(k: i32) -> XE { [XE::V0, XE::V1, XE::V2, XE::V3][k as usize] }
fn ck_XE(v: &XE, k: i32) -> bool { *v == mk_XE(k) && v.repr == [3, 1, 500, 65535][k as usize] }
fn ad_XE(v: &XE) -> usize { 0 }
fn mk_str(k: i32) -> &'static str { TXT[k as usize] }
fn ck_str(v: &&str, k: i32) -> bool { *v == TXT[k as usize] }
fn ad_str(v: &&str) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_String(k: i32) -> String { TXT[k as usize].to_owned() }
fn ck_String(v: &String, k: i32) -> bool { v == TXT[k as usize] }
fn ad_String(v: &String) -> usize { 0 }
fn mk_S1(k: i32) -> S1 { S1 { f0: mk_u8((k + 0) & 3) } }
fn ck_S1(v: &S1, k: i32) -> bool { ck_u8(&v.f0, (k + 0) & 3) }
fn ad_S1(v: &S1) -> usize { 0 }
fn mk_S2(k: i32) -> S2 { S2 { f0: mk_u8((k + 0) & 3), f1: mk_u8((k + 1) & 3) } }
fn ck_S2(v: &S2, k: i32) -> bool { ck_u8(&v.f0, (k + 0) & 3) && ck_u8(&v.f1, (k + 1) & 3) }
fn ad_S2(v: &S2) -> usize { 0 }
fn mk_S4(k: i32) -> S4 { S4 { f0: mk_f64((k + 0) & 3), f1: mk_u8((k + 1) & 3) } }
fn ck_S4(v: &S4, k: i32) -> bool { ck_f64(&v.f0, (k + 0) & 3) && ck_u8(&v.f1, (k + 1) & 3) }
fn ad_S4(v: &S4) -> usize { 0 }
fn mk_S5(k: i32) -> S5 { S5 { f0: mk_u64((k + 0) & 3), f1: mk_u64((k + 1) & 3) } }
fn ck_S5(v: &S5, k: i32) -> bool { ck_u64(&v.f0, (k + 0) & 3) && ck_u64(&v.f1, (k + 1) & 3) }
fn ad_S5(v: &S5) -> usize { 0 }
fn mk_S6(k: i32) -> S6 { S6 { f0: mk_u64((k + 0) & 3), f1: mk_u32((k + 1) & 3), f2: mk_u64((k + 2) & 3) } }
fn ck_S6(v: &S6, k: i32) -> bool { ck_u64(&v.f0, (k + 0) & 3) && ck_u32(&v.f1, (k + 1) & 3) && ck_u64(&v.f2, (k + 2) & 3) }
fn ad_S6(v: &S6) -> usize { 0 }
fn mk_S7(k: i32) -> S7 { S7 { f0: mk_String((k + 0) & 3) } }
fn ck_S7(v: &S7, k: i32) -> bool { ck_String(&v.f0, (k + 0) & 3) }
fn ad_S7(v: &S7) -> usize { 0 }
fn mk_RObj(k: i32) -> RObj { RObj::new(k) }
fn ck_RObj(v: &RObj, k: i32) -> bool { v.r_tag() == k && v.pad == TXT[k as usize] }
fn ad_RObj(v: &RObj) -> usize { 0 }
fn mk_Box_RObj(k: i32) -> Box<RObj> { Box::new(mk_RObj(k)) }
fn ck_Box_RObj(v: &Box<RObj>, k: i32) -> bool { ck_RObj(v, k) }
fn ad_Box_RObj(v: &Box<RObj>) -> usize { 0 }
fn mk_S8(k: i32) -> S8 { S8 { f0: mk_Box_RObj((k + 0) & 3), f1: mk_u8((k + 1) & 3) } }
fn ck_S8(v: &S8, k: i32) -> bool { ck_Box_RObj(&v.f0, (k + 0) & 3) && ck_u8(&v.f1, (k + 1) & 3) }
fn ad_S8(v: &S8) -> usize { 0 }
fn ck_CObj(v: &CObj, k: i32) -> bool { v.c_tag() == k }
fn ad_CObj(v: &CObj) -> usize { 0 }
fn mk_UniquePtr_CObj(k: i32) -> UniquePtr<CObj> { ffi::c_make_UniquePtr_CObj(k) }
fn ck_UniquePtr_CObj(v: &UniquePtr<CObj>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CObj(v, k) } }
fn ad_UniquePtr_CObj(v: &UniquePtr<CObj>) -> usize { 0 }
fn mk_S9(k: i32) -> S9 { S9 { f0: mk_UniquePtr_CObj((k + 0) & 3) } }
fn ck_S9(v: &S9, k: i32) -> bool { ck_UniquePtr_CObj(&v.f0, (k + 0) & 3) }
fn ad_S9(v: &S9) -> usize { 0 }
fn mk_S10(k: i32) -> S10 { S10 { f0: mk_S3((k + 0) & 3), f1: mk_S2((k + 1) & 3), f2: mk_S7((k + 2) & 3) } }
fn ck_S10(v: &S10, k: i32) -> bool { ck_S3(&v.f0, (k + 0) & 3) && ck_S2(&v.f1, (k + 1) & 3) && ck_S7(&v.f2, (k + 2) & 3) }
fn ad_S10(v: &S10) -> usize { 0 }
fn mk_arr3_u8(k: i32) -> [u8; 3] { std::array::from_fn(|i| mk_u8((k + i as i32) & 3)) }
fn ck_arr3_u8(v: &[u8; 3], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_arr3_u8(v: &[u8; 3]) -> usize { 0 }
fn mk_S11(k: i32) -> S11 { S11 { f0: mk_arr3_u8((k + 0) & 3) } }
fn ck_S11(v: &S11, k: i32) -> bool { ck_arr3_u8(&v.f0, (k + 0) & 3) }
fn ad_S11(v: &S11) -> usize { 0 }
fn mk_arr3_S2(k: i32) -> [S2; 3] { std::array::from_fn(|i| mk_S2((k + i as i32) & 3)) }
fn ck_arr3_S2(v: &[S2; 3], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_S2(v, (k + i as i32) & 3)) }
fn ad_arr3_S2(v: &[S2; 3]) -> usize { 0 }
fn mk_S12(k: i32) -> S12 { S12 { f0: mk_arr3_S2((k + 0) & 3), f1: mk_bool((k + 1) & 3) } }
fn ck_S12(v: &S12, k: i32) -> bool { ck_arr3_S2(&v.f0, (k + 0) & 3) && ck_bool(&v.f1, (k + 1) & 3) }
fn ad_S12(v: &S12) -> usize { 0 }
fn mk_Vec_String(k: i32) -> Vec<String> { (0..k).map(|i| mk_String((k + i) & 3)).collect() }
fn ck_Vec_String(v: &Vec<String>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_String(v, (k + i as i32) & 3)) }
fn ad_Vec_String(v: &Vec<String>) -> usize { 0 }
fn mk_Vec_S2(k: i32) -> Vec<S2> { (0..k).map(|i| mk_S2((k + i) & 3)).collect() }
fn ck_Vec_S2(v: &Vec<S2>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_S2(v, (k + i as i32) & 3)) }
fn ad_Vec_S2(v: &Vec<S2>) -> usize { 0 }
fn mk_S13(k: i32) -> S13 { S13 { f0: mk_Vec_String((k + 0) & 3), f1: mk_Vec_S2((k + 1) & 3) } }
fn ck_S13(v: &S13, k: i32) -> bool { ck_Vec_String(&v.f0, (k + 0) & 3) && ck_Vec_S2(&v.f1, (k + 1) & 3) }
fn ad_S13(v: &S13) -> usize { 0 }
fn mk_S14(k: i32) -> S14 { S14 { f0: mk_Eu16((k + 0) & 3), f1: mk_bool((k + 1) & 3), f2: mk_Ei64((k + 2) & 3) } }
fn ck_S14(v: &S14, k: i32) -> bool { ck_Eu16(&v.f0, (k + 0) & 3) && ck_bool(&v.f1, (k + 1) & 3) && ck_Ei64(&v.f2, (k + 2) & 3) }
fn ad_S14(v: &S14) -> usize { 0 }
fn mk_S15(k: i32) -> S15 { S15 { f0: mk_bool((k + 0) & 3) } }
fn ck_S15(v: &S15, k: i32) -> bool { ck_bool(&v.f0, (k + 0) & 3) }
fn ad_S15(v: &S15) -> usize { 0 }
fn mk_S16(k: i32) -> S16<'static> { S16 { f0: mk_str((k + 0) & 3), f1: mk_u16((k + 1) & 3) } }
fn ck_S16(v: &S16<'_>, k: i32) -> bool { ck_str(&v.f0, (k + 0) & 3) && ck_u16(&v.f1, (k + 1) & 3) }
fn ad_S16(v: &S16<'_>) -> usize { 0 }
fn mk_S17(k: i32) -> S17 { S17 { f0: mk_f32((k + 0) & 3), f1: mk_f64((k + 1) & 3) } }
fn ck_S17(v: &S17, k: i32) -> bool { ck_f32(&v.f0, (k + 0) & 3) && ck_f64(&v.f1, (k + 1) & 3) }
fn ad_S17(v: &S17) -> usize { 0 }
fn mk_S18(k: i32) -> S18 { S18 { f0: mk_c_char((k + 0) & 3), f1: mk_isize((k + 1) & 3) } }
fn ck_S18(v: &S18, k: i32) -> bool { ck_c_char(&v.f0, (k + 0) & 3) && ck_isize(&v.f1, (k + 1) & 3) }
fn ad_S18(v: &S18) -> usize { 0 }
fn mk_SharedPtr_CObj(k: i32) -> SharedPtr<CObj> { ffi::c_make_SharedPtr_CObj(k) }
fn ck_SharedPtr_CObj(v: &SharedPtr<CObj>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CObj(v, k) } }
fn ad_SharedPtr_CObj(v: &SharedPtr<CObj>) -> usize { 0 }
fn mk_S19(k: i32) -> S19 { S19 { f0: mk_SharedPtr_CObj((k + 0) & 3), f1: mk_i16((k + 1) & 3) } }
fn ck_S19(v: &S19, k: i32) -> bool { ck_SharedPtr_CObj(&v.f0, (k + 0) & 3) && ck_i16(&v.f1, (k + 1) & 3) }
fn ad_S19(v: &S19) -> usize { 0 }
fn ck_CxxString(v: &CxxString, k: i32) -> bool { v.as_bytes() == TXT[k as usize].as_bytes() }
fn ad_CxxString(v: &CxxString) -> usize { 0 }
fn mk_UniquePtr_CxxString(k: i32) -> UniquePtr<CxxString> { ffi::c_make_UniquePtr_CxxString(k) }
fn ck_UniquePtr_CxxString(v: &UniquePtr<CxxString>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CxxString(v, k) } }
fn ad_UniquePtr_CxxString(v: &UniquePtr<CxxString>) -> usize { 0 }
fn mk_S20(k: i32) -> S20 { S20 { f0: mk_UniquePtr_CxxString((k + 0) & 3) } }
fn ck_S20(v: &S20, k: i32) -> bool { ck_UniquePtr_CxxString(&v.f0, (k + 0) & 3) }
fn ad_S20(v: &S20) -> usize { 0 }
fn mk_S21(k: i32) -> S21 { S21 { f0: mk_f32((k + 0) & 3), f1: mk_f32((k + 1) & 3), f2: mk_f32((k + 2) & 3) } }
fn ck_S21(v: &S21, k: i32) -> bool { ck_f32(&v.f0, (k + 0) & 3) && ck_f32(&v.f1, (k + 1) & 3) && ck_f32(&v.f2, (k + 2) & 3) }
fn ad_S21(v: &S21) -> usize { 0 }
fn mk_sl_u16(k: i32) -> &'static [u16] { &rs_sl_u16(k)[..k as usize] }
fn ck_sl_u16(v: &&[u16], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u16(v, (k + i as i32) & 3)) }
fn ad_sl_u16(v: &&[u16]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_S22(k: i32) -> S22<'static> { S22 { f0: mk_sl_u16((k + 0) & 3), f1: mk_bool((k + 1) & 3) } }
fn ck_S22(v: &S22<'_>, k: i32) -> bool { ck_sl_u16(&v.f0, (k + 0) & 3) && ck_bool(&v.f1, (k + 1) & 3) }
fn ad_S22(v: &S22<'_>) -> usize { 0 }
fn mk_ref_S2(k: i32) -> &'static S2 { &*rs_S2(k) }
fn ck_ref_S2(v: &&S2, k: i32) -> bool { ck_S2(*v, k) }
fn ad_ref_S2(v: &&S2) -> usize { *v as *const _ as *const u8 as usize }
fn mk_S23(k: i32) -> S23<'static> { S23 { f0: mk_ref_S2((k + 0) & 3) } }
fn ck_S23(v: &S23<'_>, k: i32) -> bool { ck_ref_S2(&v.f0, (k + 0) & 3) }
fn ad_S23(v: &S23<'_>) -> usize { 0 }
fn mk_TrivA(k: i32) -> TrivA { TrivA { f0: mk_i32((k + 0) & 3) } }
fn ck_TrivA(v: &TrivA, k: i32) -> bool { ck_i32(&v.f0, (k + 0) & 3) }
fn ad_TrivA(v: &TrivA) -> usize { 0 }
fn mk_TrivB(k: i32) -> TrivB { TrivB { f0: mk_f64((k + 0) & 3), f1: mk_f64((k + 1) & 3) } }
fn ck_TrivB(v: &TrivB, k: i32) -> bool { ck_f64(&v.f0, (k + 0) & 3) && ck_f64(&v.f1, (k + 1) & 3) }
fn ad_TrivB(v: &TrivB) -> usize { 0 }
fn mk_TrivC(k: i32) -> TrivC { TrivC { f0: mk_u64((k + 0) & 3), f1: mk_u8((k + 1) & 3), f2: mk_u64((k + 2) & 3), f3: mk_u16((k + 3) & 3) } }
fn ck_TrivC(v: &TrivC, k: i32) -> bool { ck_u64(&v.f0, (k + 0) & 3) && ck_u8(&v.f1, (k + 1) & 3) && ck_u64(&v.f2, (k + 2) & 3) && ck_u16(&v.f3, (k + 3) & 3) }
fn ad_TrivC(v: &TrivC) -> usize { 0 }
fn mk_TrivD(k: i32) -> TrivD { TrivD { f0: mk_f32((k + 0) & 3), f1: mk_i32((k + 1) & 3) } }
fn ck_TrivD(v: &TrivD, k: i32) -> bool { ck_f32(&v.f0, (k + 0) & 3) && ck_i32(&v.f1, (k + 1) & 3) }
fn ad_TrivD(v: &TrivD) -> usize { 0 }
fn mk_TrivM(k: i32) -> TrivM { TrivM { f0: mk_i32((k + 0) & 3), f1: mk_u8((k + 1) & 3) } }
fn ck_TrivM(v: &TrivM, k: i32) -> bool { ck_i32(&v.f0, (k + 0) & 3) && ck_u8(&v.f1, (k + 1) & 3) }
fn ad_TrivM(v: &TrivM) -> usize { 0 }
fn mk_arr4_u8(k: i32) -> [u8; 4] { std::array::from_fn(|i| mk_u8((k + i as i32) & 3)) }
fn ck_arr4_u8(v: &[u8; 4], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_arr4_u8(v: &[u8; 4]) -> usize { 0 }
fn mk_arr1_u32(k: i32) -> [u32; 1] { std::array::from_fn(|i| mk_u32((k + i as i32) & 3)) }
fn ck_arr1_u32(v: &[u32; 1], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_u32(v, (k + i as i32) & 3)) }
fn ad_arr1_u32(v: &[u32; 1]) -> usize { 0 }
fn mk_arr2_String(k: i32) -> [String; 2] { std::array::from_fn(|i| mk_String((k + i as i32) & 3)) }
fn ck_arr2_String(v: &[String; 2], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_String(v, (k + i as i32) & 3)) }
fn ad_arr2_String(v: &[String; 2]) -> usize { 0 }
fn mk_arr2_i32(k: i32) -> [i32; 2] { std::array::from_fn(|i| mk_i32((k + i as i32) & 3)) }
fn ck_arr2_i32(v: &[i32; 2], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_i32(v, (k + i as i32) & 3)) }
fn ad_arr2_i32(v: &[i32; 2]) -> usize { 0 }
fn mk_arr2_arr2_i32(k: i32) -> [[i32; 2]; 2] { std::array::from_fn(|i| mk_arr2_i32((k + i as i32) & 3)) }
fn ck_arr2_arr2_i32(v: &[[i32; 2]; 2], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_arr2_i32(v, (k + i as i32) & 3)) }
fn ad_arr2_arr2_i32(v: &[[i32; 2]; 2]) -> usize { 0 }
fn mk_arr2_Eu8(k: i32) -> [Eu8; 2] { std::array::from_fn(|i| mk_Eu8((k + i as i32) & 3)) }
fn ck_arr2_Eu8(v: &[Eu8; 2], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_Eu8(v, (k + i as i32) & 3)) }
fn ad_arr2_Eu8(v: &[Eu8; 2]) -> usize { 0 }
fn mk_arr2_f64(k: i32) -> [f64; 2] { std::array::from_fn(|i| mk_f64((k + i as i32) & 3)) }
fn ck_arr2_f64(v: &[f64; 2], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_f64(v, (k + i as i32) & 3)) }
fn ad_arr2_f64(v: &[f64; 2]) -> usize { 0 }
fn mk_arr9_bool(k: i32) -> [bool; 9] { std::array::from_fn(|i| mk_bool((k + i as i32) & 3)) }
fn ck_arr9_bool(v: &[bool; 9], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_bool(v, (k + i as i32) & 3)) }
fn ad_arr9_bool(v: &[bool; 9]) -> usize { 0 }
static mut ST_S2: [Option<S2>; 4] = [None, None, None, None];
fn rs_S2(k: i32) -> &'static mut S2 { unsafe { ST_S2[k as usize] = Some(mk_S2(k)); ST_S2[k as usize].as_mut().unwrap() } }
fn rp_S2(k: i32) -> &'static S2 { unsafe { &*ST_S2[k as usize].as_ref().unwrap() } }
static mut SL_u16: [Option<Vec<u16>>; 4] = [None, None, None, None];
fn rs_sl_u16(k: i32) -> &'static mut Vec<u16> { unsafe { SL_u16[k as usize] = Some((0..4).map(|i| mk_u16((k + i) & 3)).collect()); SL_u16[k as usize].as_mut().unwrap() } }
fn rp_sl_u16(k: i32) -> &'static mut Vec<u16> { unsafe { SL_u16[k as usize].as_mut().unwrap() } }
fn r_take_bool(mut x: bool, k: i32) -> bool { let a = ad_bool(&x); let ok = ck_bool(&x, k);  note(a); ok }
fn r_make_bool(k: i32) -> bool { let x = mk_bool(k); note(ad_bool(&x)); x }
fn r_try_bool(k: i32, fail: bool) -> R<bool> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_bool(k); note(ad_bool(&x)); Ok(x) }
fn r_echo_bool(x: bool, k: i32) -> bool { note(if ck_bool(&x, k) { ad_bool(&x) } else { 1 }); x }
fn r_mix_bool(a: u8, x: bool, b: f64, k: i32, y: bool, c: u16) -> R<bool> { Ok(a == 200 && ck_bool(&x, k) && b == -1.5 && ck_bool(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_bool(&mut self, x: bool, k: i32) -> bool { note(if ck_RObj(self, 2) && ck_bool(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_bool(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_bool(k); let a = ad_bool(&x); ensure!(ffi::c_take_bool(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_bool(k); ensure!(ck_bool(&x, k) && addr() == ad_bool(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_bool(k, false).map_err(|e| e.to_string())?; ensure!(ck_bool(&x, k) && addr() == ad_bool(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_bool(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_bool(k); let a = ad_bool(&x); let y = ffi::c_echo_bool(x, k); ensure!(addr() == a && ad_bool(&y) == a && ck_bool(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_bool(200, mk_bool(k), -1.5, k, mk_bool((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_bool(k); let y = o.c_m_bool(x, k); ensure!(addr() == 0 && ck_bool(&y, k), "method"); }
  7 => { fn f(x: bool, k: i32) -> bool { note(if ck_bool(&x, k) { ad_bool(&x) } else { 1 }); x } ensure!(ffi::c_cb_bool(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_bool(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_u8(mut x: u8, k: i32) -> bool { let a = ad_u8(&x); let ok = ck_u8(&x, k);  note(a); ok }
fn r_make_u8(k: i32) -> u8 { let x = mk_u8(k); note(ad_u8(&x)); x }
fn r_try_u8(k: i32, fail: bool) -> R<u8> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_u8(k); note(ad_u8(&x)); Ok(x) }
fn r_echo_u8(x: u8, k: i32) -> u8 { note(if ck_u8(&x, k) { ad_u8(&x) } else { 1 }); x }
fn r_mix_u8(a: u8, x: u8, b: f64, k: i32, y: u8, c: u16) -> R<bool> { Ok(a == 200 && ck_u8(&x, k) && b == -1.5 && ck_u8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_u8(&self, x: u8, k: i32) -> u8 { note(if ck_S3(self, 2) && ck_u8(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_u8(k); let a = ad_u8(&x); ensure!(ffi::c_take_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_u8(k); ensure!(ck_u8(&x, k) && addr() == ad_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_u8(k, false).map_err(|e| e.to_string())?; ensure!(ck_u8(&x, k) && addr() == ad_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_u8(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_u8(k); let a = ad_u8(&x); let y = ffi::c_echo_u8(x, k); ensure!(addr() == a && ad_u8(&y) == a && ck_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_u8(200, mk_u8(k), -1.5, k, mk_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_u8(k); let y = o.c_m_u8(x, k); ensure!(addr() == 0 && ck_u8(&y, k), "method"); }
  7 => { fn f(x: u8, k: i32) -> u8 { note(if ck_u8(&x, k) { ad_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_i8(mut x: i8, k: i32) -> bool { let a = ad_i8(&x); let ok = ck_i8(&x, k);  note(a); ok }
fn r_make_i8(k: i32) -> i8 { let x = mk_i8(k); note(ad_i8(&x)); x }
fn r_try_i8(k: i32, fail: bool) -> R<i8> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_i8(k); note(ad_i8(&x)); Ok(x) }
fn r_echo_i8(x: i8, k: i32) -> i8 { note(if ck_i8(&x, k) { ad_i8(&x) } else { 1 }); x }
fn r_mix_i8(a: u8, x: i8, b: f64, k: i32, y: i8, c: u16) -> R<bool> { Ok(a == 200 && ck_i8(&x, k) && b == -1.5 && ck_i8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_i8(&mut self, x: i8, k: i32) -> i8 { note(if ck_S3(self, 2) && ck_i8(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_i8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_i8(k); let a = ad_i8(&x); ensure!(ffi::c_take_i8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_i8(k); ensure!(ck_i8(&x, k) && addr() == ad_i8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_i8(k, false).map_err(|e| e.to_string())?; ensure!(ck_i8(&x, k) && addr() == ad_i8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_i8(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_i8(k); let a = ad_i8(&x); let y = ffi::c_echo_i8(x, k); ensure!(addr() == a && ad_i8(&y) == a && ck_i8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_i8(200, mk_i8(k), -1.5, k, mk_i8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_i8(k); let y = o.c_m_i8(x, k); ensure!(addr() == 0 && ck_i8(&y, k), "method"); }
  7 => { fn f(x: i8, k: i32) -> i8 { note(if ck_i8(&x, k) { ad_i8(&x) } else { 1 }); x } ensure!(ffi::c_cb_i8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_i8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_u16(mut x: u16, k: i32) -> bool { let a = ad_u16(&x); let ok = ck_u16(&x, k);  note(a); ok }
fn r_make_u16(k: i32) -> u16 { let x = mk_u16(k); note(ad_u16(&x)); x }
fn r_try_u16(k: i32, fail: bool) -> R<u16> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_u16(k); note(ad_u16(&x)); Ok(x) }
fn r_echo_u16(x: u16, k: i32) -> u16 { note(if ck_u16(&x, k) { ad_u16(&x) } else { 1 }); x }
fn r_mix_u16(a: u8, x: u16, b: f64, k: i32, y: u16, c: u16) -> R<bool> { Ok(a == 200 && ck_u16(&x, k) && b == -1.5 && ck_u16(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_u16(&self, x: u16, k: i32) -> u16 { note(if ck_RObj(self, 2) && ck_u16(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_u16(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_u16(k); let a = ad_u16(&x); ensure!(ffi::c_take_u16(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_u16(k); ensure!(ck_u16(&x, k) && addr() == ad_u16(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_u16(k, false).map_err(|e| e.to_string())?; ensure!(ck_u16(&x, k) && addr() == ad_u16(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_u16(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_u16(k); let a = ad_u16(&x); let y = ffi::c_echo_u16(x, k); ensure!(addr() == a && ad_u16(&y) == a && ck_u16(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_u16(200, mk_u16(k), -1.5, k, mk_u16((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_u16(k); let y = o.c_m_u16(x, k); ensure!(addr() == 0 && ck_u16(&y, k), "method"); }
  7 => { fn f(x: u16, k: i32) -> u16 { note(if ck_u16(&x, k) { ad_u16(&x) } else { 1 }); x } ensure!(ffi::c_cb_u16(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_u16(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_i16(mut x: i16, k: i32) -> bool { let a = ad_i16(&x); let ok = ck_i16(&x, k);  note(a); ok }
fn r_make_i16(k: i32) -> i16 { let x = mk_i16(k); note(ad_i16(&x)); x }
fn r_try_i16(k: i32, fail: bool) -> R<i16> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_i16(k); note(ad_i16(&x)); Ok(x) }
fn r_echo_i16(x: i16, k: i32) -> i16 { note(if ck_i16(&x, k) { ad_i16(&x) } else { 1 }); x }
fn r_mix_i16(a: u8, x: i16, b: f64, k: i32, y: i16, c: u16) -> R<bool> { Ok(a == 200 && ck_i16(&x, k) && b == -1.5 && ck_i16(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_i16(&mut self, x: i16, k: i32) -> i16 { note(if ck_RObj(self, 2) && ck_i16(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_i16(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_i16(k); let a = ad_i16(&x); ensure!(ffi::c_take_i16(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_i16(k); ensure!(ck_i16(&x, k) && addr() == ad_i16(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_i16(k, false).map_err(|e| e.to_string())?; ensure!(ck_i16(&x, k) && addr() == ad_i16(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_i16(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_i16(k); let a = ad_i16(&x); let y = ffi::c_echo_i16(x, k); ensure!(addr() == a && ad_i16(&y) == a && ck_i16(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_i16(200, mk_i16(k), -1.5, k, mk_i16((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_i16(k); let y = o.c_m_i16(x, k); ensure!(addr() == 0 && ck_i16(&y, k), "method"); }
  7 => { fn f(x: i16, k: i32) -> i16 { note(if ck_i16(&x, k) { ad_i16(&x) } else { 1 }); x } ensure!(ffi::c_cb_i16(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_i16(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_u32(mut x: u32, k: i32) -> bool { let a = ad_u32(&x); let ok = ck_u32(&x, k);  note(a); ok }
fn r_make_u32(k: i32) -> u32 { let x = mk_u32(k); note(ad_u32(&x)); x }
fn r_try_u32(k: i32, fail: bool) -> R<u32> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_u32(k); note(ad_u32(&x)); Ok(x) }
fn r_echo_u32(x: u32, k: i32) -> u32 { note(if ck_u32(&x, k) { ad_u32(&x) } else { 1 }); x }
fn r_mix_u32(a: u8, x: u32, b: f64, k: i32, y: u32, c: u16) -> R<bool> { Ok(a == 200 && ck_u32(&x, k) && b == -1.5 && ck_u32(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_u32(&self, x: u32, k: i32) -> u32 { note(if ck_S3(self, 2) && ck_u32(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_u32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_u32(k); let a = ad_u32(&x); ensure!(ffi::c_take_u32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_u32(k); ensure!(ck_u32(&x, k) && addr() == ad_u32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_u32(k, false).map_err(|e| e.to_string())?; ensure!(ck_u32(&x, k) && addr() == ad_u32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_u32(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_u32(k); let a = ad_u32(&x); let y = ffi::c_echo_u32(x, k); ensure!(addr() == a && ad_u32(&y) == a && ck_u32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_u32(200, mk_u32(k), -1.5, k, mk_u32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_u32(k); let y = o.c_m_u32(x, k); ensure!(addr() == 0 && ck_u32(&y, k), "method"); }
  7 => { fn f(x: u32, k: i32) -> u32 { note(if ck_u32(&x, k) { ad_u32(&x) } else { 1 }); x } ensure!(ffi::c_cb_u32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_u32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_i32(mut x: i32, k: i32) -> bool { let a = ad_i32(&x); let ok = ck_i32(&x, k);  note(a); ok }
fn r_make_i32(k: i32) -> i32 { let x = mk_i32(k); note(ad_i32(&x)); x }
fn r_try_i32(k: i32, fail: bool) -> R<i32> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_i32(k); note(ad_i32(&x)); Ok(x) }
fn r_echo_i32(x: i32, k: i32) -> i32 { note(if ck_i32(&x, k) { ad_i32(&x) } else { 1 }); x }
fn r_mix_i32(a: u8, x: i32, b: f64, k: i32, y: i32, c: u16) -> R<bool> { Ok(a == 200 && ck_i32(&x, k) && b == -1.5 && ck_i32(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_i32(&mut self, x: i32, k: i32) -> i32 { note(if ck_S3(self, 2) && ck_i32(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_i32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_i32(k); let a = ad_i32(&x); ensure!(ffi::c_take_i32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_i32(k); ensure!(ck_i32(&x, k) && addr() == ad_i32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_i32(k, false).map_err(|e| e.to_string())?; ensure!(ck_i32(&x, k) && addr() == ad_i32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_i32(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_i32(k); let a = ad_i32(&x); let y = ffi::c_echo_i32(x, k); ensure!(addr() == a && ad_i32(&y) == a && ck_i32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_i32(200, mk_i32(k), -1.5, k, mk_i32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_i32(k); let y = o.c_m_i32(x, k); ensure!(addr() == 0 && ck_i32(&y, k), "method"); }
  7 => { fn f(x: i32, k: i32) -> i32 { note(if ck_i32(&x, k) { ad_i32(&x) } else { 1 }); x } ensure!(ffi::c_cb_i32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_i32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_u64(mut x: u64, k: i32) -> bool { let a = ad_u64(&x); let ok = ck_u64(&x, k);  note(a); ok }
fn r_make_u64(k: i32) -> u64 { let x = mk_u64(k); note(ad_u64(&x)); x }
fn r_try_u64(k: i32, fail: bool) -> R<u64> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_u64(k); note(ad_u64(&x)); Ok(x) }
fn r_echo_u64(x: u64, k: i32) -> u64 { note(if ck_u64(&x, k) { ad_u64(&x) } else { 1 }); x }
fn r_mix_u64(a: u8, x: u64, b: f64, k: i32, y: u64, c: u16) -> R<bool> { Ok(a == 200 && ck_u64(&x, k) && b == -1.5 && ck_u64(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_u64(&self, x: u64, k: i32) -> u64 { note(if ck_RObj(self, 2) && ck_u64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_u64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_u64(k); let a = ad_u64(&x); ensure!(ffi::c_take_u64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_u64(k); ensure!(ck_u64(&x, k) && addr() == ad_u64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_u64(k, false).map_err(|e| e.to_string())?; ensure!(ck_u64(&x, k) && addr() == ad_u64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_u64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_u64(k); let a = ad_u64(&x); let y = ffi::c_echo_u64(x, k); ensure!(addr() == a && ad_u64(&y) == a && ck_u64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_u64(200, mk_u64(k), -1.5, k, mk_u64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_u64(k); let y = o.c_m_u64(x, k); ensure!(addr() == 0 && ck_u64(&y, k), "method"); }
  7 => { fn f(x: u64, k: i32) -> u64 { note(if ck_u64(&x, k) { ad_u64(&x) } else { 1 }); x } ensure!(ffi::c_cb_u64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_u64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_i64(mut x: i64, k: i32) -> bool { let a = ad_i64(&x); let ok = ck_i64(&x, k);  note(a); ok }
fn r_make_i64(k: i32) -> i64 { let x = mk_i64(k); note(ad_i64(&x)); x }
fn r_try_i64(k: i32, fail: bool) -> R<i64> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_i64(k); note(ad_i64(&x)); Ok(x) }
fn r_echo_i64(x: i64, k: i32) -> i64 { note(if ck_i64(&x, k) { ad_i64(&x) } else { 1 }); x }
fn r_mix_i64(a: u8, x: i64, b: f64, k: i32, y: i64, c: u16) -> R<bool> { Ok(a == 200 && ck_i64(&x, k) && b == -1.5 && ck_i64(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_i64(&mut self, x: i64, k: i32) -> i64 { note(if ck_RObj(self, 2) && ck_i64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_i64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_i64(k); let a = ad_i64(&x); ensure!(ffi::c_take_i64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_i64(k); ensure!(ck_i64(&x, k) && addr() == ad_i64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_i64(k, false).map_err(|e| e.to_string())?; ensure!(ck_i64(&x, k) && addr() == ad_i64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_i64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_i64(k); let a = ad_i64(&x); let y = ffi::c_echo_i64(x, k); ensure!(addr() == a && ad_i64(&y) == a && ck_i64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_i64(200, mk_i64(k), -1.5, k, mk_i64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_i64(k); let y = o.c_m_i64(x, k); ensure!(addr() == 0 && ck_i64(&y, k), "method"); }
  7 => { fn f(x: i64, k: i32) -> i64 { note(if ck_i64(&x, k) { ad_i64(&x) } else { 1 }); x } ensure!(ffi::c_cb_i64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_i64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_usize(mut x: usize, k: i32) -> bool { let a = ad_usize(&x); let ok = ck_usize(&x, k);  note(a); ok }
fn r_make_usize(k: i32) -> usize { let x = mk_usize(k); note(ad_usize(&x)); x }
fn r_try_usize(k: i32, fail: bool) -> R<usize> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_usize(k); note(ad_usize(&x)); Ok(x) }
fn r_echo_usize(x: usize, k: i32) -> usize { note(if ck_usize(&x, k) { ad_usize(&x) } else { 1 }); x }
fn r_mix_usize(a: u8, x: usize, b: f64, k: i32, y: usize, c: u16) -> R<bool> { Ok(a == 200 && ck_usize(&x, k) && b == -1.5 && ck_usize(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_usize(&self, x: usize, k: i32) -> usize { note(if ck_S3(self, 2) && ck_usize(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_usize(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_usize(k); let a = ad_usize(&x); ensure!(ffi::c_take_usize(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_usize(k); ensure!(ck_usize(&x, k) && addr() == ad_usize(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_usize(k, false).map_err(|e| e.to_string())?; ensure!(ck_usize(&x, k) && addr() == ad_usize(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_usize(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_usize(k); let a = ad_usize(&x); let y = ffi::c_echo_usize(x, k); ensure!(addr() == a && ad_usize(&y) == a && ck_usize(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_usize(200, mk_usize(k), -1.5, k, mk_usize((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_usize(k); let y = o.c_m_usize(x, k); ensure!(addr() == 0 && ck_usize(&y, k), "method"); }
  7 => { fn f(x: usize, k: i32) -> usize { note(if ck_usize(&x, k) { ad_usize(&x) } else { 1 }); x } ensure!(ffi::c_cb_usize(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_usize(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_isize(mut x: isize, k: i32) -> bool { let a = ad_isize(&x); let ok = ck_isize(&x, k);  note(a); ok }
fn r_make_isize(k: i32) -> isize { let x = mk_isize(k); note(ad_isize(&x)); x }
fn r_try_isize(k: i32, fail: bool) -> R<isize> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_isize(k); note(ad_isize(&x)); Ok(x) }
fn r_echo_isize(x: isize, k: i32) -> isize { note(if ck_isize(&x, k) { ad_isize(&x) } else { 1 }); x }
fn r_mix_isize(a: u8, x: isize, b: f64, k: i32, y: isize, c: u16) -> R<bool> { Ok(a == 200 && ck_isize(&x, k) && b == -1.5 && ck_isize(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_isize(&mut self, x: isize, k: i32) -> isize { note(if ck_S3(self, 2) && ck_isize(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_isize(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_isize(k); let a = ad_isize(&x); ensure!(ffi::c_take_isize(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_isize(k); ensure!(ck_isize(&x, k) && addr() == ad_isize(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_isize(k, false).map_err(|e| e.to_string())?; ensure!(ck_isize(&x, k) && addr() == ad_isize(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_isize(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_isize(k); let a = ad_isize(&x); let y = ffi::c_echo_isize(x, k); ensure!(addr() == a && ad_isize(&y) == a && ck_isize(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_isize(200, mk_isize(k), -1.5, k, mk_isize((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_isize(k); let y = o.c_m_isize(x, k); ensure!(addr() == 0 && ck_isize(&y, k), "method"); }
  7 => { fn f(x: isize, k: i32) -> isize { note(if ck_isize(&x, k) { ad_isize(&x) } else { 1 }); x } ensure!(ffi::c_cb_isize(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_isize(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_c_char(mut x: c_char, k: i32) -> bool { let a = ad_c_char(&x); let ok = ck_c_char(&x, k);  note(a); ok }
fn r_make_c_char(k: i32) -> c_char { let x = mk_c_char(k); note(ad_c_char(&x)); x }
fn r_try_c_char(k: i32, fail: bool) -> R<c_char> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_c_char(k); note(ad_c_char(&x)); Ok(x) }
fn r_echo_c_char(x: c_char, k: i32) -> c_char { note(if ck_c_char(&x, k) { ad_c_char(&x) } else { 1 }); x }
fn r_mix_c_char(a: u8, x: c_char, b: f64, k: i32, y: c_char, c: u16) -> R<bool> { Ok(a == 200 && ck_c_char(&x, k) && b == -1.5 && ck_c_char(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_c_char(&self, x: c_char, k: i32) -> c_char { note(if ck_RObj(self, 2) && ck_c_char(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_c_char(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_c_char(k); let a = ad_c_char(&x); ensure!(ffi::c_take_c_char(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_c_char(k); ensure!(ck_c_char(&x, k) && addr() == ad_c_char(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_c_char(k, false).map_err(|e| e.to_string())?; ensure!(ck_c_char(&x, k) && addr() == ad_c_char(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_c_char(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_c_char(k); let a = ad_c_char(&x); let y = ffi::c_echo_c_char(x, k); ensure!(addr() == a && ad_c_char(&y) == a && ck_c_char(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_c_char(200, mk_c_char(k), -1.5, k, mk_c_char((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_c_char(k); let y = o.c_m_c_char(x, k); ensure!(addr() == 0 && ck_c_char(&y, k), "method"); }
  7 => { fn f(x: c_char, k: i32) -> c_char { note(if ck_c_char(&x, k) { ad_c_char(&x) } else { 1 }); x } ensure!(ffi::c_cb_c_char(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_c_char(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_f32(mut x: f32, k: i32) -> bool { let a = ad_f32(&x); let ok = ck_f32(&x, k);  note(a); ok }
fn r_make_f32(k: i32) -> f32 { let x = mk_f32(k); note(ad_f32(&x)); x }
fn r_try_f32(k: i32, fail: bool) -> R<f32> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_f32(k); note(ad_f32(&x)); Ok(x) }
fn r_echo_f32(x: f32, k: i32) -> f32 { note(if ck_f32(&x, k) { ad_f32(&x) } else { 1 }); x }
fn r_mix_f32(a: u8, x: f32, b: f64, k: i32, y: f32, c: u16) -> R<bool> { Ok(a == 200 && ck_f32(&x, k) && b == -1.5 && ck_f32(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_f32(&mut self, x: f32, k: i32) -> f32 { note(if ck_RObj(self, 2) && ck_f32(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_f32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_f32(k); let a = ad_f32(&x); ensure!(ffi::c_take_f32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_f32(k); ensure!(ck_f32(&x, k) && addr() == ad_f32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_f32(k, false).map_err(|e| e.to_string())?; ensure!(ck_f32(&x, k) && addr() == ad_f32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_f32(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_f32(k); let a = ad_f32(&x); let y = ffi::c_echo_f32(x, k); ensure!(addr() == a && ad_f32(&y) == a && ck_f32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_f32(200, mk_f32(k), -1.5, k, mk_f32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_f32(k); let y = o.c_m_f32(x, k); ensure!(addr() == 0 && ck_f32(&y, k), "method"); }
  7 => { fn f(x: f32, k: i32) -> f32 { note(if ck_f32(&x, k) { ad_f32(&x) } else { 1 }); x } ensure!(ffi::c_cb_f32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_f32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_f64(mut x: f64, k: i32) -> bool { let a = ad_f64(&x); let ok = ck_f64(&x, k);  note(a); ok }
fn r_make_f64(k: i32) -> f64 { let x = mk_f64(k); note(ad_f64(&x)); x }
fn r_try_f64(k: i32, fail: bool) -> R<f64> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_f64(k); note(ad_f64(&x)); Ok(x) }
fn r_echo_f64(x: f64, k: i32) -> f64 { note(if ck_f64(&x, k) { ad_f64(&x) } else { 1 }); x }
fn r_mix_f64(a: u8, x: f64, b: f64, k: i32, y: f64, c: u16) -> R<bool> { Ok(a == 200 && ck_f64(&x, k) && b == -1.5 && ck_f64(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_f64(&self, x: f64, k: i32) -> f64 { note(if ck_S3(self, 2) && ck_f64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_f64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_f64(k); let a = ad_f64(&x); ensure!(ffi::c_take_f64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_f64(k); ensure!(ck_f64(&x, k) && addr() == ad_f64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_f64(k, false).map_err(|e| e.to_string())?; ensure!(ck_f64(&x, k) && addr() == ad_f64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_f64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_f64(k); let a = ad_f64(&x); let y = ffi::c_echo_f64(x, k); ensure!(addr() == a && ad_f64(&y) == a && ck_f64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_f64(200, mk_f64(k), -1.5, k, mk_f64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_f64(k); let y = o.c_m_f64(x, k); ensure!(addr() == 0 && ck_f64(&y, k), "method"); }
  7 => { fn f(x: f64, k: i32) -> f64 { note(if ck_f64(&x, k) { ad_f64(&x) } else { 1 }); x } ensure!(ffi::c_cb_f64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_f64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Eu8(mut x: Eu8, k: i32) -> bool { let a = ad_Eu8(&x); let ok = ck_Eu8(&x, k);  note(a); ok }
fn r_make_Eu8(k: i32) -> Eu8 { let x = mk_Eu8(k); note(ad_Eu8(&x)); x }
fn r_try_Eu8(k: i32, fail: bool) -> R<Eu8> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Eu8(k); note(ad_Eu8(&x)); Ok(x) }
fn r_echo_Eu8(x: Eu8, k: i32) -> Eu8 { note(if ck_Eu8(&x, k) { ad_Eu8(&x) } else { 1 }); x }
fn r_mix_Eu8(a: u8, x: Eu8, b: f64, k: i32, y: Eu8, c: u16) -> R<bool> { Ok(a == 200 && ck_Eu8(&x, k) && b == -1.5 && ck_Eu8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Eu8(&mut self, x: Eu8, k: i32) -> Eu8 { note(if ck_S3(self, 2) && ck_Eu8(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Eu8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Eu8(k); let a = ad_Eu8(&x); ensure!(ffi::c_take_Eu8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Eu8(k); ensure!(ck_Eu8(&x, k) && addr() == ad_Eu8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Eu8(k, false).map_err(|e| e.to_string())?; ensure!(ck_Eu8(&x, k) && addr() == ad_Eu8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Eu8(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Eu8(k); let a = ad_Eu8(&x); let y = ffi::c_echo_Eu8(x, k); ensure!(addr() == a && ad_Eu8(&y) == a && ck_Eu8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Eu8(200, mk_Eu8(k), -1.5, k, mk_Eu8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Eu8(k); let y = o.c_m_Eu8(x, k); ensure!(addr() == 0 && ck_Eu8(&y, k), "method"); }
  7 => { fn f(x: Eu8, k: i32) -> Eu8 { note(if ck_Eu8(&x, k) { ad_Eu8(&x) } else { 1 }); x } ensure!(ffi::c_cb_Eu8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Eu8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Ei8(mut x: Ei8, k: i32) -> bool { let a = ad_Ei8(&x); let ok = ck_Ei8(&x, k);  note(a); ok }
fn r_make_Ei8(k: i32) -> Ei8 { let x = mk_Ei8(k); note(ad_Ei8(&x)); x }
fn r_try_Ei8(k: i32, fail: bool) -> R<Ei8> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Ei8(k); note(ad_Ei8(&x)); Ok(x) }
fn r_echo_Ei8(x: Ei8, k: i32) -> Ei8 { note(if ck_Ei8(&x, k) { ad_Ei8(&x) } else { 1 }); x }
fn r_mix_Ei8(a: u8, x: Ei8, b: f64, k: i32, y: Ei8, c: u16) -> R<bool> { Ok(a == 200 && ck_Ei8(&x, k) && b == -1.5 && ck_Ei8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Ei8(&self, x: Ei8, k: i32) -> Ei8 { note(if ck_RObj(self, 2) && ck_Ei8(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Ei8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Ei8(k); let a = ad_Ei8(&x); ensure!(ffi::c_take_Ei8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Ei8(k); ensure!(ck_Ei8(&x, k) && addr() == ad_Ei8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Ei8(k, false).map_err(|e| e.to_string())?; ensure!(ck_Ei8(&x, k) && addr() == ad_Ei8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Ei8(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Ei8(k); let a = ad_Ei8(&x); let y = ffi::c_echo_Ei8(x, k); ensure!(addr() == a && ad_Ei8(&y) == a && ck_Ei8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Ei8(200, mk_Ei8(k), -1.5, k, mk_Ei8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Ei8(k); let y = o.c_m_Ei8(x, k); ensure!(addr() == 0 && ck_Ei8(&y, k), "method"); }
  7 => { fn f(x: Ei8, k: i32) -> Ei8 { note(if ck_Ei8(&x, k) { ad_Ei8(&x) } else { 1 }); x } ensure!(ffi::c_cb_Ei8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Ei8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Eu16(mut x: Eu16, k: i32) -> bool { let a = ad_Eu16(&x); let ok = ck_Eu16(&x, k);  note(a); ok }
fn r_make_Eu16(k: i32) -> Eu16 { let x = mk_Eu16(k); note(ad_Eu16(&x)); x }
fn r_try_Eu16(k: i32, fail: bool) -> R<Eu16> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Eu16(k); note(ad_Eu16(&x)); Ok(x) }
fn r_echo_Eu16(x: Eu16, k: i32) -> Eu16 { note(if ck_Eu16(&x, k) { ad_Eu16(&x) } else { 1 }); x }
fn r_mix_Eu16(a: u8, x: Eu16, b: f64, k: i32, y: Eu16, c: u16) -> R<bool> { Ok(a == 200 && ck_Eu16(&x, k) && b == -1.5 && ck_Eu16(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Eu16(&mut self, x: Eu16, k: i32) -> Eu16 { note(if ck_RObj(self, 2) && ck_Eu16(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Eu16(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Eu16(k); let a = ad_Eu16(&x); ensure!(ffi::c_take_Eu16(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Eu16(k); ensure!(ck_Eu16(&x, k) && addr() == ad_Eu16(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Eu16(k, false).map_err(|e| e.to_string())?; ensure!(ck_Eu16(&x, k) && addr() == ad_Eu16(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Eu16(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Eu16(k); let a = ad_Eu16(&x); let y = ffi::c_echo_Eu16(x, k); ensure!(addr() == a && ad_Eu16(&y) == a && ck_Eu16(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Eu16(200, mk_Eu16(k), -1.5, k, mk_Eu16((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Eu16(k); let y = o.c_m_Eu16(x, k); ensure!(addr() == 0 && ck_Eu16(&y, k), "method"); }
  7 => { fn f(x: Eu16, k: i32) -> Eu16 { note(if ck_Eu16(&x, k) { ad_Eu16(&x) } else { 1 }); x } ensure!(ffi::c_cb_Eu16(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Eu16(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Ei32(mut x: Ei32, k: i32) -> bool { let a = ad_Ei32(&x); let ok = ck_Ei32(&x, k);  note(a); ok }
fn r_make_Ei32(k: i32) -> Ei32 { let x = mk_Ei32(k); note(ad_Ei32(&x)); x }
fn r_try_Ei32(k: i32, fail: bool) -> R<Ei32> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Ei32(k); note(ad_Ei32(&x)); Ok(x) }
fn r_echo_Ei32(x: Ei32, k: i32) -> Ei32 { note(if ck_Ei32(&x, k) { ad_Ei32(&x) } else { 1 }); x }
fn r_mix_Ei32(a: u8, x: Ei32, b: f64, k: i32, y: Ei32, c: u16) -> R<bool> { Ok(a == 200 && ck_Ei32(&x, k) && b == -1.5 && ck_Ei32(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Ei32(&self, x: Ei32, k: i32) -> Ei32 { note(if ck_S3(self, 2) && ck_Ei32(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Ei32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Ei32(k); let a = ad_Ei32(&x); ensure!(ffi::c_take_Ei32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Ei32(k); ensure!(ck_Ei32(&x, k) && addr() == ad_Ei32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Ei32(k, false).map_err(|e| e.to_string())?; ensure!(ck_Ei32(&x, k) && addr() == ad_Ei32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Ei32(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Ei32(k); let a = ad_Ei32(&x); let y = ffi::c_echo_Ei32(x, k); ensure!(addr() == a && ad_Ei32(&y) == a && ck_Ei32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Ei32(200, mk_Ei32(k), -1.5, k, mk_Ei32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Ei32(k); let y = o.c_m_Ei32(x, k); ensure!(addr() == 0 && ck_Ei32(&y, k), "method"); }
  7 => { fn f(x: Ei32, k: i32) -> Ei32 { note(if ck_Ei32(&x, k) { ad_Ei32(&x) } else { 1 }); x } ensure!(ffi::c_cb_Ei32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Ei32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Eu32(mut x: Eu32, k: i32) -> bool { let a = ad_Eu32(&x); let ok = ck_Eu32(&x, k);  note(a); ok }
fn r_make_Eu32(k: i32) -> Eu32 { let x = mk_Eu32(k); note(ad_Eu32(&x)); x }
fn r_try_Eu32(k: i32, fail: bool) -> R<Eu32> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Eu32(k); note(ad_Eu32(&x)); Ok(x) }
fn r_echo_Eu32(x: Eu32, k: i32) -> Eu32 { note(if ck_Eu32(&x, k) { ad_Eu32(&x) } else { 1 }); x }
fn r_mix_Eu32(a: u8, x: Eu32, b: f64, k: i32, y: Eu32, c: u16) -> R<bool> { Ok(a == 200 && ck_Eu32(&x, k) && b == -1.5 && ck_Eu32(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_Eu32(&mut self, x: Eu32, k: i32) -> Eu32 { note(if ck_S3(self, 2) && ck_Eu32(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Eu32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Eu32(k); let a = ad_Eu32(&x); ensure!(ffi::c_take_Eu32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Eu32(k); ensure!(ck_Eu32(&x, k) && addr() == ad_Eu32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Eu32(k, false).map_err(|e| e.to_string())?; ensure!(ck_Eu32(&x, k) && addr() == ad_Eu32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Eu32(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Eu32(k); let a = ad_Eu32(&x); let y = ffi::c_echo_Eu32(x, k); ensure!(addr() == a && ad_Eu32(&y) == a && ck_Eu32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Eu32(200, mk_Eu32(k), -1.5, k, mk_Eu32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Eu32(k); let y = o.c_m_Eu32(x, k); ensure!(addr() == 0 && ck_Eu32(&y, k), "method"); }
  7 => { fn f(x: Eu32, k: i32) -> Eu32 { note(if ck_Eu32(&x, k) { ad_Eu32(&x) } else { 1 }); x } ensure!(ffi::c_cb_Eu32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Eu32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Ei64(mut x: Ei64, k: i32) -> bool { let a = ad_Ei64(&x); let ok = ck_Ei64(&x, k);  note(a); ok }
fn r_make_Ei64(k: i32) -> Ei64 { let x = mk_Ei64(k); note(ad_Ei64(&x)); x }
fn r_try_Ei64(k: i32, fail: bool) -> R<Ei64> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Ei64(k); note(ad_Ei64(&x)); Ok(x) }
fn r_echo_Ei64(x: Ei64, k: i32) -> Ei64 { note(if ck_Ei64(&x, k) { ad_Ei64(&x) } else { 1 }); x }
fn r_mix_Ei64(a: u8, x: Ei64, b: f64, k: i32, y: Ei64, c: u16) -> R<bool> { Ok(a == 200 && ck_Ei64(&x, k) && b == -1.5 && ck_Ei64(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Ei64(&self, x: Ei64, k: i32) -> Ei64 { note(if ck_RObj(self, 2) && ck_Ei64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Ei64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Ei64(k); let a = ad_Ei64(&x); ensure!(ffi::c_take_Ei64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Ei64(k); ensure!(ck_Ei64(&x, k) && addr() == ad_Ei64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Ei64(k, false).map_err(|e| e.to_string())?; ensure!(ck_Ei64(&x, k) && addr() == ad_Ei64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Ei64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Ei64(k); let a = ad_Ei64(&x); let y = ffi::c_echo_Ei64(x, k); ensure!(addr() == a && ad_Ei64(&y) == a && ck_Ei64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Ei64(200, mk_Ei64(k), -1.5, k, mk_Ei64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_Ei64(k); let y = o.c_m_Ei64(x, k); ensure!(addr() == 0 && ck_Ei64(&y, k), "method"); }
  7 => { fn f(x: Ei64, k: i32) -> Ei64 { note(if ck_Ei64(&x, k) { ad_Ei64(&x) } else { 1 }); x } ensure!(ffi::c_cb_Ei64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Ei64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_Eu64(mut x: Eu64, k: i32) -> bool { let a = ad_Eu64(&x); let ok = ck_Eu64(&x, k);  note(a); ok }
fn r_make_Eu64(k: i32) -> Eu64 { let x = mk_Eu64(k); note(ad_Eu64(&x)); x }
fn r_try_Eu64(k: i32, fail: bool) -> R<Eu64> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_Eu64(k); note(ad_Eu64(&x)); Ok(x) }
fn r_echo_Eu64(x: Eu64, k: i32) -> Eu64 { note(if ck_Eu64(&x, k) { ad_Eu64(&x) } else { 1 }); x }
fn r_mix_Eu64(a: u8, x: Eu64, b: f64, k: i32, y: Eu64, c: u16) -> R<bool> { Ok(a == 200 && ck_Eu64(&x, k) && b == -1.5 && ck_Eu64(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_Eu64(&mut self, x: Eu64, k: i32) -> Eu64 { note(if ck_RObj(self, 2) && ck_Eu64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_Eu64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_Eu64(k); let a = ad_Eu64(&x); ensure!(ffi::c_take_Eu64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_Eu64(k); ensure!(ck_Eu64(&x, k) && addr() == ad_Eu64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_Eu64(k, false).map_err(|e| e.to_string())?; ensure!(ck_Eu64(&x, k) && addr() == ad_Eu64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_Eu64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_Eu64(k); let a = ad_Eu64(&x); let y = ffi::c_echo_Eu64(x, k); ensure!(addr() == a && ad_Eu64(&y) == a && ck_Eu64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_Eu64(200, mk_Eu64(k), -1.5, k, mk_Eu64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_Eu64(k); let y = o.c_m_Eu64(x, k); ensure!(addr() == 0 && ck_Eu64(&y, k), "method"); }
  7 => { fn f(x: Eu64, k: i32) -> Eu64 { note(if ck_Eu64(&x, k) { ad_Eu64(&x) } else { 1 }); x } ensure!(ffi::c_cb_Eu64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_Eu64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_XE(mut x: XE, k: i32) -> bool { let a = ad_XE(&x); let ok = ck_XE(&x, k);  note(a); ok }
fn r_make_XE(k: i32) -> XE { let x = mk_XE(k); note(ad_XE(&x)); x }
fn r_try_XE(k: i32, fail: bool) -> R<XE> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_XE(k); note(ad_XE(&x)); Ok(x) }
fn r_echo_XE(x: XE, k: i32) -> XE { note(if ck_XE(&x, k) { ad_XE(&x) } else { 1 }); x }
fn r_mix_XE(a: u8, x: XE, b: f64, k: i32, y: XE, c: u16) -> R<bool> { Ok(a == 200 && ck_XE(&x, k) && b == -1.5 && ck_XE(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_XE(&self, x: XE, k: i32) -> XE { note(if ck_S3(self, 2) && ck_XE(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_XE(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_XE(k); let a = ad_XE(&x); ensure!(ffi::c_take_XE(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_XE(k); ensure!(ck_XE(&x, k) && addr() == ad_XE(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_XE(k, false).map_err(|e| e.to_string())?; ensure!(ck_XE(&x, k) && addr() == ad_XE(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_XE(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_XE(k); let a = ad_XE(&x); let y = ffi::c_echo_XE(x, k); ensure!(addr() == a && ad_XE(&y) == a && ck_XE(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_XE(200, mk_XE(k), -1.5, k, mk_XE((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_XE(k); let y = o.c_m_XE(x, k); ensure!(addr() == 0 && ck_XE(&y, k), "method"); }
  7 => { fn f(x: XE, k: i32) -> XE { note(if ck_XE(&x, k) { ad_XE(&x) } else { 1 }); x } ensure!(ffi::c_cb_XE(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_XE(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_str(mut x: &str, k: i32) -> bool { let a = ad_str(&x); let ok = ck_str(&x, k);  note(a); ok }
fn r_make_str(z: &u8, k: i32) -> &str { let x = mk_str(k); note(ad_str(&x)); x }
fn r_try_str(z: &u8, k: i32, fail: bool) -> R<&str> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_str(k); note(ad_str(&x)); Ok(x) }
fn r_echo_str(x: &str, k: i32) -> &str { note(if ck_str(&x, k) { ad_str(&x) } else { 1 }); x }
fn r_mix_str(a: u8, x: &str, b: f64, k: i32, y: &str, c: u16) -> R<bool> { Ok(a == 200 && ck_str(&x, k) && b == -1.5 && ck_str(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_str(&mut self, x: &str, k: i32) -> bool { ck_S3(self, 2) && ck_str(&x, k) } }
unsafe fn run_str(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_str(k); let a = ad_str(&x); ensure!(ffi::c_take_str(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_str(&Z, k); ensure!(ck_str(&x, k) && addr() == ad_str(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_str(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_str(&x, k) && addr() == ad_str(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_str(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_str(k); let a = ad_str(&x); let y = ffi::c_echo_str(x, k); ensure!(addr() == a && ad_str(&y) == a && ck_str(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_str(200, mk_str(k), -1.5, k, mk_str((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_str(k); ensure!(o.c_m_str(x, k), "method"); }
  7 => { fn f(x: &str, k: i32) -> &str { note(if ck_str(&x, k) { ad_str(&x) } else { 1 }); x } ensure!(ffi::c_cb_str(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_str(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_String(mut x: String, k: i32) -> bool { let a = ad_String(&x); let ok = ck_String(&x, k);  note(a); ok }
fn r_make_String(k: i32) -> String { let x = mk_String(k); note(ad_String(&x)); x }
fn r_try_String(k: i32, fail: bool) -> R<String> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_String(k); note(ad_String(&x)); Ok(x) }
fn r_echo_String(x: String, k: i32) -> String { note(if ck_String(&x, k) { ad_String(&x) } else { 1 }); x }
fn r_mix_String(a: u8, x: String, b: f64, k: i32, y: String, c: u16) -> R<bool> { Ok(a == 200 && ck_String(&x, k) && b == -1.5 && ck_String(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_String(&self, x: String, k: i32) -> String { note(if ck_RObj(self, 2) && ck_String(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_String(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_String(k); let a = ad_String(&x); ensure!(ffi::c_take_String(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_String(k); ensure!(ck_String(&x, k) && addr() == ad_String(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_String(k, false).map_err(|e| e.to_string())?; ensure!(ck_String(&x, k) && addr() == ad_String(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_String(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_String(k); let a = ad_String(&x); let y = ffi::c_echo_String(x, k); ensure!(addr() == a && ad_String(&y) == a && ck_String(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_String(200, mk_String(k), -1.5, k, mk_String((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_String(k); let y = o.c_m_String(x, k); ensure!(addr() == 0 && ck_String(&y, k), "method"); }
  7 => { fn f(x: String, k: i32) -> String { note(if ck_String(&x, k) { ad_String(&x) } else { 1 }); x } ensure!(ffi::c_cb_String(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_String(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S1(mut x: S1, k: i32) -> bool { let a = ad_S1(&x); let ok = ck_S1(&x, k);  note(a); ok }
fn r_make_S1(k: i32) -> S1 { let x = mk_S1(k); note(ad_S1(&x)); x }
fn r_try_S1(k: i32, fail: bool) -> R<S1> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S1(k); note(ad_S1(&x)); Ok(x) }
fn r_echo_S1(x: S1, k: i32) -> S1 { note(if ck_S1(&x, k) { ad_S1(&x) } else { 1 }); x }
fn r_mix_S1(a: u8, x: S1, b: f64, k: i32, y: S1, c: u16) -> R<bool> { Ok(a == 200 && ck_S1(&x, k) && b == -1.5 && ck_S1(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_S1(&mut self, x: S1, k: i32) -> S1 { note(if ck_RObj(self, 2) && ck_S1(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S1(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S1(k); let a = ad_S1(&x); ensure!(ffi::c_take_S1(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S1(k); ensure!(ck_S1(&x, k) && addr() == ad_S1(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S1(k, false).map_err(|e| e.to_string())?; ensure!(ck_S1(&x, k) && addr() == ad_S1(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S1(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S1(k); let a = ad_S1(&x); let y = ffi::c_echo_S1(x, k); ensure!(addr() == a && ad_S1(&y) == a && ck_S1(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S1(200, mk_S1(k), -1.5, k, mk_S1((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S1(k); let y = o.c_m_S1(x, k); ensure!(addr() == 0 && ck_S1(&y, k), "method"); }
  7 => { fn f(x: S1, k: i32) -> S1 { note(if ck_S1(&x, k) { ad_S1(&x) } else { 1 }); x } ensure!(ffi::c_cb_S1(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S1(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S2(mut x: S2, k: i32) -> bool { let a = ad_S2(&x); let ok = ck_S2(&x, k);  note(a); ok }
fn r_make_S2(k: i32) -> S2 { let x = mk_S2(k); note(ad_S2(&x)); x }
fn r_try_S2(k: i32, fail: bool) -> R<S2> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S2(k); note(ad_S2(&x)); Ok(x) }
fn r_echo_S2(x: S2, k: i32) -> S2 { note(if ck_S2(&x, k) { ad_S2(&x) } else { 1 }); x }
fn r_mix_S2(a: u8, x: S2, b: f64, k: i32, y: S2, c: u16) -> R<bool> { Ok(a == 200 && ck_S2(&x, k) && b == -1.5 && ck_S2(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_S2(&self, x: S2, k: i32) -> S2 { note(if ck_S3(self, 2) && ck_S2(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S2(k); let a = ad_S2(&x); ensure!(ffi::c_take_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S2(k); ensure!(ck_S2(&x, k) && addr() == ad_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S2(k, false).map_err(|e| e.to_string())?; ensure!(ck_S2(&x, k) && addr() == ad_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S2(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S2(k); let a = ad_S2(&x); let y = ffi::c_echo_S2(x, k); ensure!(addr() == a && ad_S2(&y) == a && ck_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S2(200, mk_S2(k), -1.5, k, mk_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S2(k); let y = o.c_m_S2(x, k); ensure!(addr() == 0 && ck_S2(&y, k), "method"); }
  7 => { fn f(x: S2, k: i32) -> S2 { note(if ck_S2(&x, k) { ad_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S3(mut x: S3, k: i32) -> bool { let a = ad_S3(&x); let ok = ck_S3(&x, k);  note(a); ok }
fn r_make_S3(k: i32) -> S3 { let x = mk_S3(k); note(ad_S3(&x)); x }
fn r_try_S3(k: i32, fail: bool) -> R<S3> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S3(k); note(ad_S3(&x)); Ok(x) }
fn r_echo_S3(x: S3, k: i32) -> S3 { note(if ck_S3(&x, k) { ad_S3(&x) } else { 1 }); x }
fn r_mix_S3(a: u8, x: S3, b: f64, k: i32, y: S3, c: u16) -> R<bool> { Ok(a == 200 && ck_S3(&x, k) && b == -1.5 && ck_S3(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_S3(&mut self, x: S3, k: i32) -> S3 { note(if ck_S3(self, 2) && ck_S3(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S3(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S3(k); let a = ad_S3(&x); ensure!(ffi::c_take_S3(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S3(k); ensure!(ck_S3(&x, k) && addr() == ad_S3(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S3(k, false).map_err(|e| e.to_string())?; ensure!(ck_S3(&x, k) && addr() == ad_S3(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S3(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S3(k); let a = ad_S3(&x); let y = ffi::c_echo_S3(x, k); ensure!(addr() == a && ad_S3(&y) == a && ck_S3(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S3(200, mk_S3(k), -1.5, k, mk_S3((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S3(k); let y = o.c_m_S3(x, k); ensure!(addr() == 0 && ck_S3(&y, k), "method"); }
  7 => { fn f(x: S3, k: i32) -> S3 { note(if ck_S3(&x, k) { ad_S3(&x) } else { 1 }); x } ensure!(ffi::c_cb_S3(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S3(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S4(mut x: S4, k: i32) -> bool { let a = ad_S4(&x); let ok = ck_S4(&x, k);  note(a); ok }
fn r_make_S4(k: i32) -> S4 { let x = mk_S4(k); note(ad_S4(&x)); x }
fn r_try_S4(k: i32, fail: bool) -> R<S4> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S4(k); note(ad_S4(&x)); Ok(x) }
fn r_echo_S4(x: S4, k: i32) -> S4 { note(if ck_S4(&x, k) { ad_S4(&x) } else { 1 }); x }
fn r_mix_S4(a: u8, x: S4, b: f64, k: i32, y: S4, c: u16) -> R<bool> { Ok(a == 200 && ck_S4(&x, k) && b == -1.5 && ck_S4(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_S4(&self, x: S4, k: i32) -> S4 { note(if ck_RObj(self, 2) && ck_S4(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S4(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S4(k); let a = ad_S4(&x); ensure!(ffi::c_take_S4(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S4(k); ensure!(ck_S4(&x, k) && addr() == ad_S4(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S4(k, false).map_err(|e| e.to_string())?; ensure!(ck_S4(&x, k) && addr() == ad_S4(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S4(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S4(k); let a = ad_S4(&x); let y = ffi::c_echo_S4(x, k); ensure!(addr() == a && ad_S4(&y) == a && ck_S4(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S4(200, mk_S4(k), -1.5, k, mk_S4((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S4(k); let y = o.c_m_S4(x, k); ensure!(addr() == 0 && ck_S4(&y, k), "method"); }
  7 => { fn f(x: S4, k: i32) -> S4 { note(if ck_S4(&x, k) { ad_S4(&x) } else { 1 }); x } ensure!(ffi::c_cb_S4(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S4(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S5(mut x: S5, k: i32) -> bool { let a = ad_S5(&x); let ok = ck_S5(&x, k);  note(a); ok }
fn r_make_S5(k: i32) -> S5 { let x = mk_S5(k); note(ad_S5(&x)); x }
fn r_try_S5(k: i32, fail: bool) -> R<S5> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S5(k); note(ad_S5(&x)); Ok(x) }
fn r_echo_S5(x: S5, k: i32) -> S5 { note(if ck_S5(&x, k) { ad_S5(&x) } else { 1 }); x }
fn r_mix_S5(a: u8, x: S5, b: f64, k: i32, y: S5, c: u16) -> R<bool> { Ok(a == 200 && ck_S5(&x, k) && b == -1.5 && ck_S5(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_S5(&mut self, x: S5, k: i32) -> S5 { note(if ck_RObj(self, 2) && ck_S5(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S5(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S5(k); let a = ad_S5(&x); ensure!(ffi::c_take_S5(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S5(k); ensure!(ck_S5(&x, k) && addr() == ad_S5(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S5(k, false).map_err(|e| e.to_string())?; ensure!(ck_S5(&x, k) && addr() == ad_S5(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S5(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S5(k); let a = ad_S5(&x); let y = ffi::c_echo_S5(x, k); ensure!(addr() == a && ad_S5(&y) == a && ck_S5(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S5(200, mk_S5(k), -1.5, k, mk_S5((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S5(k); let y = o.c_m_S5(x, k); ensure!(addr() == 0 && ck_S5(&y, k), "method"); }
  7 => { fn f(x: S5, k: i32) -> S5 { note(if ck_S5(&x, k) { ad_S5(&x) } else { 1 }); x } ensure!(ffi::c_cb_S5(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S5(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S6(mut x: S6, k: i32) -> bool { let a = ad_S6(&x); let ok = ck_S6(&x, k);  note(a); ok }
fn r_make_S6(k: i32) -> S6 { let x = mk_S6(k); note(ad_S6(&x)); x }
fn r_try_S6(k: i32, fail: bool) -> R<S6> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S6(k); note(ad_S6(&x)); Ok(x) }
fn r_echo_S6(x: S6, k: i32) -> S6 { note(if ck_S6(&x, k) { ad_S6(&x) } else { 1 }); x }
fn r_mix_S6(a: u8, x: S6, b: f64, k: i32, y: S6, c: u16) -> R<bool> { Ok(a == 200 && ck_S6(&x, k) && b == -1.5 && ck_S6(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_S6(&self, x: S6, k: i32) -> S6 { note(if ck_S3(self, 2) && ck_S6(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S6(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S6(k); let a = ad_S6(&x); ensure!(ffi::c_take_S6(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S6(k); ensure!(ck_S6(&x, k) && addr() == ad_S6(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S6(k, false).map_err(|e| e.to_string())?; ensure!(ck_S6(&x, k) && addr() == ad_S6(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S6(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S6(k); let a = ad_S6(&x); let y = ffi::c_echo_S6(x, k); ensure!(addr() == a && ad_S6(&y) == a && ck_S6(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S6(200, mk_S6(k), -1.5, k, mk_S6((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S6(k); let y = o.c_m_S6(x, k); ensure!(addr() == 0 && ck_S6(&y, k), "method"); }
  7 => { fn f(x: S6, k: i32) -> S6 { note(if ck_S6(&x, k) { ad_S6(&x) } else { 1 }); x } ensure!(ffi::c_cb_S6(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S6(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S7(mut x: S7, k: i32) -> bool { let a = ad_S7(&x); let ok = ck_S7(&x, k);  note(a); ok }
fn r_make_S7(k: i32) -> S7 { let x = mk_S7(k); note(ad_S7(&x)); x }
fn r_try_S7(k: i32, fail: bool) -> R<S7> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S7(k); note(ad_S7(&x)); Ok(x) }
fn r_echo_S7(x: S7, k: i32) -> S7 { note(if ck_S7(&x, k) { ad_S7(&x) } else { 1 }); x }
fn r_mix_S7(a: u8, x: S7, b: f64, k: i32, y: S7, c: u16) -> R<bool> { Ok(a == 200 && ck_S7(&x, k) && b == -1.5 && ck_S7(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_S7(&mut self, x: S7, k: i32) -> S7 { note(if ck_S3(self, 2) && ck_S7(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S7(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S7(k); let a = ad_S7(&x); ensure!(ffi::c_take_S7(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S7(k); ensure!(ck_S7(&x, k) && addr() == ad_S7(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S7(k, false).map_err(|e| e.to_string())?; ensure!(ck_S7(&x, k) && addr() == ad_S7(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S7(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S7(k); let a = ad_S7(&x); let y = ffi::c_echo_S7(x, k); ensure!(addr() == a && ad_S7(&y) == a && ck_S7(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S7(200, mk_S7(k), -1.5, k, mk_S7((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S7(k); let y = o.c_m_S7(x, k); ensure!(addr() == 0 && ck_S7(&y, k), "method"); }
  7 => { fn f(x: S7, k: i32) -> S7 { note(if ck_S7(&x, k) { ad_S7(&x) } else { 1 }); x } ensure!(ffi::c_cb_S7(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S7(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S8(mut x: S8, k: i32) -> bool { let a = ad_S8(&x); let ok = ck_S8(&x, k);  note(a); ok }
fn r_make_S8(k: i32) -> S8 { let x = mk_S8(k); note(ad_S8(&x)); x }
fn r_try_S8(k: i32, fail: bool) -> R<S8> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S8(k); note(ad_S8(&x)); Ok(x) }
fn r_echo_S8(x: S8, k: i32) -> S8 { note(if ck_S8(&x, k) { ad_S8(&x) } else { 1 }); x }
fn r_mix_S8(a: u8, x: S8, b: f64, k: i32, y: S8, c: u16) -> R<bool> { Ok(a == 200 && ck_S8(&x, k) && b == -1.5 && ck_S8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_S8(&self, x: S8, k: i32) -> S8 { note(if ck_RObj(self, 2) && ck_S8(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S8(k); let a = ad_S8(&x); ensure!(ffi::c_take_S8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S8(k); ensure!(ck_S8(&x, k) && addr() == ad_S8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S8(k, false).map_err(|e| e.to_string())?; ensure!(ck_S8(&x, k) && addr() == ad_S8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S8(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S8(k); let a = ad_S8(&x); let y = ffi::c_echo_S8(x, k); ensure!(addr() == a && ad_S8(&y) == a && ck_S8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S8(200, mk_S8(k), -1.5, k, mk_S8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S8(k); let y = o.c_m_S8(x, k); ensure!(addr() == 0 && ck_S8(&y, k), "method"); }
  7 => { fn f(x: S8, k: i32) -> S8 { note(if ck_S8(&x, k) { ad_S8(&x) } else { 1 }); x } ensure!(ffi::c_cb_S8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S9(mut x: S9, k: i32) -> bool { let a = ad_S9(&x); let ok = ck_S9(&x, k);  note(a); ok }
fn r_make_S9(k: i32) -> S9 { let x = mk_S9(k); note(ad_S9(&x)); x }
fn r_try_S9(k: i32, fail: bool) -> R<S9> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S9(k); note(ad_S9(&x)); Ok(x) }
fn r_echo_S9(x: S9, k: i32) -> S9 { note(if ck_S9(&x, k) { ad_S9(&x) } else { 1 }); x }
fn r_mix_S9(a: u8, x: S9, b: f64, k: i32, y: S9, c: u16) -> R<bool> { Ok(a == 200 && ck_S9(&x, k) && b == -1.5 && ck_S9(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_S9(&mut self, x: S9, k: i32) -> S9 { note(if ck_RObj(self, 2) && ck_S9(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S9(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S9(k); let a = ad_S9(&x); ensure!(ffi::c_take_S9(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S9(k); ensure!(ck_S9(&x, k) && addr() == ad_S9(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S9(k, false).map_err(|e| e.to_string())?; ensure!(ck_S9(&x, k) && addr() == ad_S9(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S9(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S9(k); let a = ad_S9(&x); let y = ffi::c_echo_S9(x, k); ensure!(addr() == a && ad_S9(&y) == a && ck_S9(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S9(200, mk_S9(k), -1.5, k, mk_S9((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S9(k); let y = o.c_m_S9(x, k); ensure!(addr() == 0 && ck_S9(&y, k), "method"); }
  7 => { fn f(x: S9, k: i32) -> S9 { note(if ck_S9(&x, k) { ad_S9(&x) } else { 1 }); x } ensure!(ffi::c_cb_S9(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S9(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S10(mut x: S10, k: i32) -> bool { let a = ad_S10(&x); let ok = ck_S10(&x, k);  note(a); ok }
fn r_make_S10(k: i32) -> S10 { let x = mk_S10(k); note(ad_S10(&x)); x }
fn r_try_S10(k: i32, fail: bool) -> R<S10> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S10(k); note(ad_S10(&x)); Ok(x) }
fn r_echo_S10(x: S10, k: i32) -> S10 { note(if ck_S10(&x, k) { ad_S10(&x) } else { 1 }); x }
fn r_mix_S10(a: u8, x: S10, b: f64, k: i32, y: S10, c: u16) -> R<bool> { Ok(a == 200 && ck_S10(&x, k) && b == -1.5 && ck_S10(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_S10(&self, x: S10, k: i32) -> S10 { note(if ck_S3(self, 2) && ck_S10(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S10(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S10(k); let a = ad_S10(&x); ensure!(ffi::c_take_S10(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S10(k); ensure!(ck_S10(&x, k) && addr() == ad_S10(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S10(k, false).map_err(|e| e.to_string())?; ensure!(ck_S10(&x, k) && addr() == ad_S10(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S10(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S10(k); let a = ad_S10(&x); let y = ffi::c_echo_S10(x, k); ensure!(addr() == a && ad_S10(&y) == a && ck_S10(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S10(200, mk_S10(k), -1.5, k, mk_S10((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S10(k); let y = o.c_m_S10(x, k); ensure!(addr() == 0 && ck_S10(&y, k), "method"); }
  7 => { fn f(x: S10, k: i32) -> S10 { note(if ck_S10(&x, k) { ad_S10(&x) } else { 1 }); x } ensure!(ffi::c_cb_S10(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S10(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S11(mut x: S11, k: i32) -> bool { let a = ad_S11(&x); let ok = ck_S11(&x, k);  note(a); ok }
fn r_make_S11(k: i32) -> S11 { let x = mk_S11(k); note(ad_S11(&x)); x }
fn r_try_S11(k: i32, fail: bool) -> R<S11> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S11(k); note(ad_S11(&x)); Ok(x) }
fn r_echo_S11(x: S11, k: i32) -> S11 { note(if ck_S11(&x, k) { ad_S11(&x) } else { 1 }); x }
fn r_mix_S11(a: u8, x: S11, b: f64, k: i32, y: S11, c: u16) -> R<bool> { Ok(a == 200 && ck_S11(&x, k) && b == -1.5 && ck_S11(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_S11(&mut self, x: S11, k: i32) -> S11 { note(if ck_S3(self, 2) && ck_S11(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S11(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S11(k); let a = ad_S11(&x); ensure!(ffi::c_take_S11(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S11(k); ensure!(ck_S11(&x, k) && addr() == ad_S11(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S11(k, false).map_err(|e| e.to_string())?; ensure!(ck_S11(&x, k) && addr() == ad_S11(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S11(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S11(k); let a = ad_S11(&x); let y = ffi::c_echo_S11(x, k); ensure!(addr() == a && ad_S11(&y) == a && ck_S11(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S11(200, mk_S11(k), -1.5, k, mk_S11((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S11(k); let y = o.c_m_S11(x, k); ensure!(addr() == 0 && ck_S11(&y, k), "method"); }
  7 => { fn f(x: S11, k: i32) -> S11 { note(if ck_S11(&x, k) { ad_S11(&x) } else { 1 }); x } ensure!(ffi::c_cb_S11(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S11(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S12(mut x: S12, k: i32) -> bool { let a = ad_S12(&x); let ok = ck_S12(&x, k);  note(a); ok }
fn r_make_S12(k: i32) -> S12 { let x = mk_S12(k); note(ad_S12(&x)); x }
fn r_try_S12(k: i32, fail: bool) -> R<S12> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S12(k); note(ad_S12(&x)); Ok(x) }
fn r_echo_S12(x: S12, k: i32) -> S12 { note(if ck_S12(&x, k) { ad_S12(&x) } else { 1 }); x }
fn r_mix_S12(a: u8, x: S12, b: f64, k: i32, y: S12, c: u16) -> R<bool> { Ok(a == 200 && ck_S12(&x, k) && b == -1.5 && ck_S12(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_S12(&self, x: S12, k: i32) -> S12 { note(if ck_RObj(self, 2) && ck_S12(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S12(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S12(k); let a = ad_S12(&x); ensure!(ffi::c_take_S12(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S12(k); ensure!(ck_S12(&x, k) && addr() == ad_S12(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S12(k, false).map_err(|e| e.to_string())?; ensure!(ck_S12(&x, k) && addr() == ad_S12(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S12(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S12(k); let a = ad_S12(&x); let y = ffi::c_echo_S12(x, k); ensure!(addr() == a && ad_S12(&y) == a && ck_S12(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S12(200, mk_S12(k), -1.5, k, mk_S12((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S12(k); let y = o.c_m_S12(x, k); ensure!(addr() == 0 && ck_S12(&y, k), "method"); }
  7 => { fn f(x: S12, k: i32) -> S12 { note(if ck_S12(&x, k) { ad_S12(&x) } else { 1 }); x } ensure!(ffi::c_cb_S12(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S12(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S13(mut x: S13, k: i32) -> bool { let a = ad_S13(&x); let ok = ck_S13(&x, k);  note(a); ok }
fn r_make_S13(k: i32) -> S13 { let x = mk_S13(k); note(ad_S13(&x)); x }
fn r_try_S13(k: i32, fail: bool) -> R<S13> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S13(k); note(ad_S13(&x)); Ok(x) }
fn r_echo_S13(x: S13, k: i32) -> S13 { note(if ck_S13(&x, k) { ad_S13(&x) } else { 1 }); x }
fn r_mix_S13(a: u8, x: S13, b: f64, k: i32, y: S13, c: u16) -> R<bool> { Ok(a == 200 && ck_S13(&x, k) && b == -1.5 && ck_S13(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_S13(&mut self, x: S13, k: i32) -> S13 { note(if ck_RObj(self, 2) && ck_S13(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S13(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S13(k); let a = ad_S13(&x); ensure!(ffi::c_take_S13(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S13(k); ensure!(ck_S13(&x, k) && addr() == ad_S13(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S13(k, false).map_err(|e| e.to_string())?; ensure!(ck_S13(&x, k) && addr() == ad_S13(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S13(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S13(k); let a = ad_S13(&x); let y = ffi::c_echo_S13(x, k); ensure!(addr() == a && ad_S13(&y) == a && ck_S13(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S13(200, mk_S13(k), -1.5, k, mk_S13((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S13(k); let y = o.c_m_S13(x, k); ensure!(addr() == 0 && ck_S13(&y, k), "method"); }
  7 => { fn f(x: S13, k: i32) -> S13 { note(if ck_S13(&x, k) { ad_S13(&x) } else { 1 }); x } ensure!(ffi::c_cb_S13(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S13(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S14(mut x: S14, k: i32) -> bool { let a = ad_S14(&x); let ok = ck_S14(&x, k);  note(a); ok }
fn r_make_S14(k: i32) -> S14 { let x = mk_S14(k); note(ad_S14(&x)); x }
fn r_try_S14(k: i32, fail: bool) -> R<S14> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S14(k); note(ad_S14(&x)); Ok(x) }
fn r_echo_S14(x: S14, k: i32) -> S14 { note(if ck_S14(&x, k) { ad_S14(&x) } else { 1 }); x }
fn r_mix_S14(a: u8, x: S14, b: f64, k: i32, y: S14, c: u16) -> R<bool> { Ok(a == 200 && ck_S14(&x, k) && b == -1.5 && ck_S14(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_S14(&self, x: S14, k: i32) -> S14 { note(if ck_S3(self, 2) && ck_S14(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S14(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S14(k); let a = ad_S14(&x); ensure!(ffi::c_take_S14(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S14(k); ensure!(ck_S14(&x, k) && addr() == ad_S14(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S14(k, false).map_err(|e| e.to_string())?; ensure!(ck_S14(&x, k) && addr() == ad_S14(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S14(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S14(k); let a = ad_S14(&x); let y = ffi::c_echo_S14(x, k); ensure!(addr() == a && ad_S14(&y) == a && ck_S14(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S14(200, mk_S14(k), -1.5, k, mk_S14((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S14(k); let y = o.c_m_S14(x, k); ensure!(addr() == 0 && ck_S14(&y, k), "method"); }
  7 => { fn f(x: S14, k: i32) -> S14 { note(if ck_S14(&x, k) { ad_S14(&x) } else { 1 }); x } ensure!(ffi::c_cb_S14(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S14(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S15(mut x: S15, k: i32) -> bool { let a = ad_S15(&x); let ok = ck_S15(&x, k);  note(a); ok }
fn r_make_S15(k: i32) -> S15 { let x = mk_S15(k); note(ad_S15(&x)); x }
fn r_try_S15(k: i32, fail: bool) -> R<S15> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S15(k); note(ad_S15(&x)); Ok(x) }
fn r_echo_S15(x: S15, k: i32) -> S15 { note(if ck_S15(&x, k) { ad_S15(&x) } else { 1 }); x }
fn r_mix_S15(a: u8, x: S15, b: f64, k: i32, y: S15, c: u16) -> R<bool> { Ok(a == 200 && ck_S15(&x, k) && b == -1.5 && ck_S15(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_S15(&mut self, x: S15, k: i32) -> S15 { note(if ck_S3(self, 2) && ck_S15(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S15(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S15(k); let a = ad_S15(&x); ensure!(ffi::c_take_S15(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S15(k); ensure!(ck_S15(&x, k) && addr() == ad_S15(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S15(k, false).map_err(|e| e.to_string())?; ensure!(ck_S15(&x, k) && addr() == ad_S15(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S15(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S15(k); let a = ad_S15(&x); let y = ffi::c_echo_S15(x, k); ensure!(addr() == a && ad_S15(&y) == a && ck_S15(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S15(200, mk_S15(k), -1.5, k, mk_S15((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S15(k); let y = o.c_m_S15(x, k); ensure!(addr() == 0 && ck_S15(&y, k), "method"); }
  7 => { fn f(x: S15, k: i32) -> S15 { note(if ck_S15(&x, k) { ad_S15(&x) } else { 1 }); x } ensure!(ffi::c_cb_S15(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S15(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_S16<'a>(mut x: S16<'a>, k: i32) -> bool { let a = ad_S16(&x); let ok = ck_S16(&x, k);  note(a); ok }
unsafe fn r_make_S16<'a>(z: &'a u8, k: i32) -> S16<'a> { let x = mk_S16(k); note(ad_S16(&x)); x }
unsafe fn r_try_S16<'a>(z: &'a u8, k: i32, fail: bool) -> R<S16<'a>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S16(k); note(ad_S16(&x)); Ok(x) }
unsafe fn r_echo_S16<'a>(x: S16<'a>, k: i32) -> S16<'a> { note(if ck_S16(&x, k) { ad_S16(&x) } else { 1 }); x }
unsafe fn r_mix_S16<'a>(a: u8, x: S16<'a>, b: f64, k: i32, y: S16<'a>, c: u16) -> R<bool> { Ok(a == 200 && ck_S16(&x, k) && b == -1.5 && ck_S16(&y, (k + 1) & 3) && c == 60000) }
impl RObj { unsafe fn r_m_S16<'a>(&self, x: S16<'a>, k: i32) -> bool { ck_RObj(self, 2) && ck_S16(&x, k) } }
unsafe fn run_S16(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S16(k); let a = ad_S16(&x); ensure!(ffi::c_take_S16(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S16(&Z, k); ensure!(ck_S16(&x, k) && addr() == ad_S16(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S16(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_S16(&x, k) && addr() == ad_S16(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S16(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S16(k); let a = ad_S16(&x); let y = ffi::c_echo_S16(x, k); ensure!(addr() == a && ad_S16(&y) == a && ck_S16(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S16(200, mk_S16(k), -1.5, k, mk_S16((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S16(k); ensure!(o.c_m_S16(x, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_S16(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S17(mut x: S17, k: i32) -> bool { let a = ad_S17(&x); let ok = ck_S17(&x, k);  note(a); ok }
fn r_make_S17(k: i32) -> S17 { let x = mk_S17(k); note(ad_S17(&x)); x }
fn r_try_S17(k: i32, fail: bool) -> R<S17> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S17(k); note(ad_S17(&x)); Ok(x) }
fn r_echo_S17(x: S17, k: i32) -> S17 { note(if ck_S17(&x, k) { ad_S17(&x) } else { 1 }); x }
fn r_mix_S17(a: u8, x: S17, b: f64, k: i32, y: S17, c: u16) -> R<bool> { Ok(a == 200 && ck_S17(&x, k) && b == -1.5 && ck_S17(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_S17(&mut self, x: S17, k: i32) -> S17 { note(if ck_RObj(self, 2) && ck_S17(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S17(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S17(k); let a = ad_S17(&x); ensure!(ffi::c_take_S17(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S17(k); ensure!(ck_S17(&x, k) && addr() == ad_S17(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S17(k, false).map_err(|e| e.to_string())?; ensure!(ck_S17(&x, k) && addr() == ad_S17(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S17(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S17(k); let a = ad_S17(&x); let y = ffi::c_echo_S17(x, k); ensure!(addr() == a && ad_S17(&y) == a && ck_S17(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S17(200, mk_S17(k), -1.5, k, mk_S17((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S17(k); let y = o.c_m_S17(x, k); ensure!(addr() == 0 && ck_S17(&y, k), "method"); }
  7 => { fn f(x: S17, k: i32) -> S17 { note(if ck_S17(&x, k) { ad_S17(&x) } else { 1 }); x } ensure!(ffi::c_cb_S17(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S17(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S18(mut x: S18, k: i32) -> bool { let a = ad_S18(&x); let ok = ck_S18(&x, k);  note(a); ok }
fn r_make_S18(k: i32) -> S18 { let x = mk_S18(k); note(ad_S18(&x)); x }
fn r_try_S18(k: i32, fail: bool) -> R<S18> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S18(k); note(ad_S18(&x)); Ok(x) }
fn r_echo_S18(x: S18, k: i32) -> S18 { note(if ck_S18(&x, k) { ad_S18(&x) } else { 1 }); x }
fn r_mix_S18(a: u8, x: S18, b: f64, k: i32, y: S18, c: u16) -> R<bool> { Ok(a == 200 && ck_S18(&x, k) && b == -1.5 && ck_S18(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_S18(&self, x: S18, k: i32) -> S18 { note(if ck_S3(self, 2) && ck_S18(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S18(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S18(k); let a = ad_S18(&x); ensure!(ffi::c_take_S18(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S18(k); ensure!(ck_S18(&x, k) && addr() == ad_S18(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S18(k, false).map_err(|e| e.to_string())?; ensure!(ck_S18(&x, k) && addr() == ad_S18(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S18(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S18(k); let a = ad_S18(&x); let y = ffi::c_echo_S18(x, k); ensure!(addr() == a && ad_S18(&y) == a && ck_S18(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S18(200, mk_S18(k), -1.5, k, mk_S18((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S18(k); let y = o.c_m_S18(x, k); ensure!(addr() == 0 && ck_S18(&y, k), "method"); }
  7 => { fn f(x: S18, k: i32) -> S18 { note(if ck_S18(&x, k) { ad_S18(&x) } else { 1 }); x } ensure!(ffi::c_cb_S18(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S18(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S19(mut x: S19, k: i32) -> bool { let a = ad_S19(&x); let ok = ck_S19(&x, k);  note(a); ok }
fn r_make_S19(k: i32) -> S19 { let x = mk_S19(k); note(ad_S19(&x)); x }
fn r_try_S19(k: i32, fail: bool) -> R<S19> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S19(k); note(ad_S19(&x)); Ok(x) }
fn r_echo_S19(x: S19, k: i32) -> S19 { note(if ck_S19(&x, k) { ad_S19(&x) } else { 1 }); x }
fn r_mix_S19(a: u8, x: S19, b: f64, k: i32, y: S19, c: u16) -> R<bool> { Ok(a == 200 && ck_S19(&x, k) && b == -1.5 && ck_S19(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_S19(&mut self, x: S19, k: i32) -> S19 { note(if ck_S3(self, 2) && ck_S19(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S19(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S19(k); let a = ad_S19(&x); ensure!(ffi::c_take_S19(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S19(k); ensure!(ck_S19(&x, k) && addr() == ad_S19(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S19(k, false).map_err(|e| e.to_string())?; ensure!(ck_S19(&x, k) && addr() == ad_S19(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S19(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S19(k); let a = ad_S19(&x); let y = ffi::c_echo_S19(x, k); ensure!(addr() == a && ad_S19(&y) == a && ck_S19(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S19(200, mk_S19(k), -1.5, k, mk_S19((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S19(k); let y = o.c_m_S19(x, k); ensure!(addr() == 0 && ck_S19(&y, k), "method"); }
  7 => { fn f(x: S19, k: i32) -> S19 { note(if ck_S19(&x, k) { ad_S19(&x) } else { 1 }); x } ensure!(ffi::c_cb_S19(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S19(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S20(mut x: S20, k: i32) -> bool { let a = ad_S20(&x); let ok = ck_S20(&x, k);  note(a); ok }
fn r_make_S20(k: i32) -> S20 { let x = mk_S20(k); note(ad_S20(&x)); x }
fn r_try_S20(k: i32, fail: bool) -> R<S20> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S20(k); note(ad_S20(&x)); Ok(x) }
fn r_echo_S20(x: S20, k: i32) -> S20 { note(if ck_S20(&x, k) { ad_S20(&x) } else { 1 }); x }
fn r_mix_S20(a: u8, x: S20, b: f64, k: i32, y: S20, c: u16) -> R<bool> { Ok(a == 200 && ck_S20(&x, k) && b == -1.5 && ck_S20(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_S20(&self, x: S20, k: i32) -> S20 { note(if ck_RObj(self, 2) && ck_S20(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S20(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S20(k); let a = ad_S20(&x); ensure!(ffi::c_take_S20(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S20(k); ensure!(ck_S20(&x, k) && addr() == ad_S20(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S20(k, false).map_err(|e| e.to_string())?; ensure!(ck_S20(&x, k) && addr() == ad_S20(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S20(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S20(k); let a = ad_S20(&x); let y = ffi::c_echo_S20(x, k); ensure!(addr() == a && ad_S20(&y) == a && ck_S20(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S20(200, mk_S20(k), -1.5, k, mk_S20((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S20(k); let y = o.c_m_S20(x, k); ensure!(addr() == 0 && ck_S20(&y, k), "method"); }
  7 => { fn f(x: S20, k: i32) -> S20 { note(if ck_S20(&x, k) { ad_S20(&x) } else { 1 }); x } ensure!(ffi::c_cb_S20(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S20(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_S21(mut x: S21, k: i32) -> bool { let a = ad_S21(&x); let ok = ck_S21(&x, k);  note(a); ok }
fn r_make_S21(k: i32) -> S21 { let x = mk_S21(k); note(ad_S21(&x)); x }
fn r_try_S21(k: i32, fail: bool) -> R<S21> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S21(k); note(ad_S21(&x)); Ok(x) }
fn r_echo_S21(x: S21, k: i32) -> S21 { note(if ck_S21(&x, k) { ad_S21(&x) } else { 1 }); x }
fn r_mix_S21(a: u8, x: S21, b: f64, k: i32, y: S21, c: u16) -> R<bool> { Ok(a == 200 && ck_S21(&x, k) && b == -1.5 && ck_S21(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_S21(&mut self, x: S21, k: i32) -> S21 { note(if ck_RObj(self, 2) && ck_S21(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_S21(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S21(k); let a = ad_S21(&x); ensure!(ffi::c_take_S21(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S21(k); ensure!(ck_S21(&x, k) && addr() == ad_S21(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S21(k, false).map_err(|e| e.to_string())?; ensure!(ck_S21(&x, k) && addr() == ad_S21(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S21(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S21(k); let a = ad_S21(&x); let y = ffi::c_echo_S21(x, k); ensure!(addr() == a && ad_S21(&y) == a && ck_S21(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S21(200, mk_S21(k), -1.5, k, mk_S21((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S21(k); let y = o.c_m_S21(x, k); ensure!(addr() == 0 && ck_S21(&y, k), "method"); }
  7 => { fn f(x: S21, k: i32) -> S21 { note(if ck_S21(&x, k) { ad_S21(&x) } else { 1 }); x } ensure!(ffi::c_cb_S21(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_S21(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_S22<'a>(mut x: S22<'a>, k: i32) -> bool { let a = ad_S22(&x); let ok = ck_S22(&x, k);  note(a); ok }
unsafe fn r_make_S22<'a>(z: &'a u8, k: i32) -> S22<'a> { let x = mk_S22(k); note(ad_S22(&x)); x }
unsafe fn r_try_S22<'a>(z: &'a u8, k: i32, fail: bool) -> R<S22<'a>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S22(k); note(ad_S22(&x)); Ok(x) }
unsafe fn r_echo_S22<'a>(x: S22<'a>, k: i32) -> S22<'a> { note(if ck_S22(&x, k) { ad_S22(&x) } else { 1 }); x }
unsafe fn r_mix_S22<'a>(a: u8, x: S22<'a>, b: f64, k: i32, y: S22<'a>, c: u16) -> R<bool> { Ok(a == 200 && ck_S22(&x, k) && b == -1.5 && ck_S22(&y, (k + 1) & 3) && c == 60000) }
impl S3 { unsafe fn r_m_S22<'a>(&self, x: S22<'a>, k: i32) -> bool { ck_S3(self, 2) && ck_S22(&x, k) } }
unsafe fn run_S22(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S22(k); let a = ad_S22(&x); ensure!(ffi::c_take_S22(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S22(&Z, k); ensure!(ck_S22(&x, k) && addr() == ad_S22(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S22(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_S22(&x, k) && addr() == ad_S22(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S22(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S22(k); let a = ad_S22(&x); let y = ffi::c_echo_S22(x, k); ensure!(addr() == a && ad_S22(&y) == a && ck_S22(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S22(200, mk_S22(k), -1.5, k, mk_S22((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_S22(k); ensure!(o.c_m_S22(x, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_S22(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
unsafe fn r_take_S23<'a>(mut x: S23<'a>, k: i32) -> bool { let a = ad_S23(&x); let ok = ck_S23(&x, k);  note(a); ok }
unsafe fn r_make_S23<'a>(z: &'a u8, k: i32) -> S23<'a> { let x = mk_S23(k); note(ad_S23(&x)); x }
unsafe fn r_try_S23<'a>(z: &'a u8, k: i32, fail: bool) -> R<S23<'a>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_S23(k); note(ad_S23(&x)); Ok(x) }
unsafe fn r_echo_S23<'a>(x: S23<'a>, k: i32) -> S23<'a> { note(if ck_S23(&x, k) { ad_S23(&x) } else { 1 }); x }
unsafe fn r_mix_S23<'a>(a: u8, x: S23<'a>, b: f64, k: i32, y: S23<'a>, c: u16) -> R<bool> { Ok(a == 200 && ck_S23(&x, k) && b == -1.5 && ck_S23(&y, (k + 1) & 3) && c == 60000) }
impl S3 { unsafe fn r_m_S23<'a>(&mut self, x: S23<'a>, k: i32) -> bool { ck_S3(self, 2) && ck_S23(&x, k) } }
unsafe fn run_S23(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_S23(k); let a = ad_S23(&x); ensure!(ffi::c_take_S23(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_S23(&Z, k); ensure!(ck_S23(&x, k) && addr() == ad_S23(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_S23(&Z, k, false).map_err(|e| e.to_string())?; ensure!(ck_S23(&x, k) && addr() == ad_S23(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_S23(&Z, k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_S23(k); let a = ad_S23(&x); let y = ffi::c_echo_S23(x, k); ensure!(addr() == a && ad_S23(&y) == a && ck_S23(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_S23(200, mk_S23(k), -1.5, k, mk_S23((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_S23(k); ensure!(o.c_m_S23(x, k), "method"); }
  7 => {}
  p => { let x = ffi::c_run_S23(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_TrivA(mut x: TrivA, k: i32) -> bool { let a = ad_TrivA(&x); let ok = ck_TrivA(&x, k);  note(a); ok }
fn r_make_TrivA(k: i32) -> TrivA { let x = mk_TrivA(k); note(ad_TrivA(&x)); x }
fn r_try_TrivA(k: i32, fail: bool) -> R<TrivA> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_TrivA(k); note(ad_TrivA(&x)); Ok(x) }
fn r_echo_TrivA(x: TrivA, k: i32) -> TrivA { note(if ck_TrivA(&x, k) { ad_TrivA(&x) } else { 1 }); x }
fn r_mix_TrivA(a: u8, x: TrivA, b: f64, k: i32, y: TrivA, c: u16) -> R<bool> { Ok(a == 200 && ck_TrivA(&x, k) && b == -1.5 && ck_TrivA(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_TrivA(&self, x: TrivA, k: i32) -> TrivA { note(if ck_RObj(self, 2) && ck_TrivA(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_TrivA(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_TrivA(k); let a = ad_TrivA(&x); ensure!(ffi::c_take_TrivA(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_TrivA(k); ensure!(ck_TrivA(&x, k) && addr() == ad_TrivA(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_TrivA(k, false).map_err(|e| e.to_string())?; ensure!(ck_TrivA(&x, k) && addr() == ad_TrivA(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_TrivA(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_TrivA(k); let a = ad_TrivA(&x); let y = ffi::c_echo_TrivA(x, k); ensure!(addr() == a && ad_TrivA(&y) == a && ck_TrivA(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_TrivA(200, mk_TrivA(k), -1.5, k, mk_TrivA((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_TrivA(k); let y = o.c_m_TrivA(x, k); ensure!(addr() == 0 && ck_TrivA(&y, k), "method"); }
  7 => { fn f(x: TrivA, k: i32) -> TrivA { note(if ck_TrivA(&x, k) { ad_TrivA(&x) } else { 1 }); x } ensure!(ffi::c_cb_TrivA(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_TrivA(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_TrivB(mut x: TrivB, k: i32) -> bool { let a = ad_TrivB(&x); let ok = ck_TrivB(&x, k);  note(a); ok }
fn r_make_TrivB(k: i32) -> TrivB { let x = mk_TrivB(k); note(ad_TrivB(&x)); x }
fn r_try_TrivB(k: i32, fail: bool) -> R<TrivB> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_TrivB(k); note(ad_TrivB(&x)); Ok(x) }
fn r_echo_TrivB(x: TrivB, k: i32) -> TrivB { note(if ck_TrivB(&x, k) { ad_TrivB(&x) } else { 1 }); x }
fn r_mix_TrivB(a: u8, x: TrivB, b: f64, k: i32, y: TrivB, c: u16) -> R<bool> { Ok(a == 200 && ck_TrivB(&x, k) && b == -1.5 && ck_TrivB(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_TrivB(&mut self, x: TrivB, k: i32) -> TrivB { note(if ck_RObj(self, 2) && ck_TrivB(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_TrivB(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_TrivB(k); let a = ad_TrivB(&x); ensure!(ffi::c_take_TrivB(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_TrivB(k); ensure!(ck_TrivB(&x, k) && addr() == ad_TrivB(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_TrivB(k, false).map_err(|e| e.to_string())?; ensure!(ck_TrivB(&x, k) && addr() == ad_TrivB(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_TrivB(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_TrivB(k); let a = ad_TrivB(&x); let y = ffi::c_echo_TrivB(x, k); ensure!(addr() == a && ad_TrivB(&y) == a && ck_TrivB(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_TrivB(200, mk_TrivB(k), -1.5, k, mk_TrivB((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_TrivB(k); let y = o.c_m_TrivB(x, k); ensure!(addr() == 0 && ck_TrivB(&y, k), "method"); }
  7 => { fn f(x: TrivB, k: i32) -> TrivB { note(if ck_TrivB(&x, k) { ad_TrivB(&x) } else { 1 }); x } ensure!(ffi::c_cb_TrivB(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_TrivB(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_TrivC(mut x: TrivC, k: i32) -> bool { let a = ad_TrivC(&x); let ok = ck_TrivC(&x, k);  note(a); ok }
fn r_make_TrivC(k: i32) -> TrivC { let x = mk_TrivC(k); note(ad_TrivC(&x)); x }
fn r_try_TrivC(k: i32, fail: bool) -> R<TrivC> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_TrivC(k); note(ad_TrivC(&x)); Ok(x) }
fn r_echo_TrivC(x: TrivC, k: i32) -> TrivC { note(if ck_TrivC(&x, k) { ad_TrivC(&x) } else { 1 }); x }
fn r_mix_TrivC(a: u8, x: TrivC, b: f64, k: i32, y: TrivC, c: u16) -> R<bool> { Ok(a == 200 && ck_TrivC(&x, k) && b == -1.5 && ck_TrivC(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_TrivC(&self, x: TrivC, k: i32) -> TrivC { note(if ck_S3(self, 2) && ck_TrivC(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_TrivC(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_TrivC(k); let a = ad_TrivC(&x); ensure!(ffi::c_take_TrivC(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_TrivC(k); ensure!(ck_TrivC(&x, k) && addr() == ad_TrivC(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_TrivC(k, false).map_err(|e| e.to_string())?; ensure!(ck_TrivC(&x, k) && addr() == ad_TrivC(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_TrivC(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_TrivC(k); let a = ad_TrivC(&x); let y = ffi::c_echo_TrivC(x, k); ensure!(addr() == a && ad_TrivC(&y) == a && ck_TrivC(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_TrivC(200, mk_TrivC(k), -1.5, k, mk_TrivC((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_TrivC(k); let y = o.c_m_TrivC(x, k); ensure!(addr() == 0 && ck_TrivC(&y, k), "method"); }
  7 => { fn f(x: TrivC, k: i32) -> TrivC { note(if ck_TrivC(&x, k) { ad_TrivC(&x) } else { 1 }); x } ensure!(ffi::c_cb_TrivC(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_TrivC(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_TrivD(mut x: TrivD, k: i32) -> bool { let a = ad_TrivD(&x); let ok = ck_TrivD(&x, k);  note(a); ok }
fn r_make_TrivD(k: i32) -> TrivD { let x = mk_TrivD(k); note(ad_TrivD(&x)); x }
fn r_try_TrivD(k: i32, fail: bool) -> R<TrivD> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_TrivD(k); note(ad_TrivD(&x)); Ok(x) }
fn r_echo_TrivD(x: TrivD, k: i32) -> TrivD { note(if ck_TrivD(&x, k) { ad_TrivD(&x) } else { 1 }); x }
fn r_mix_TrivD(a: u8, x: TrivD, b: f64, k: i32, y: TrivD, c: u16) -> R<bool> { Ok(a == 200 && ck_TrivD(&x, k) && b == -1.5 && ck_TrivD(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_TrivD(&mut self, x: TrivD, k: i32) -> TrivD { note(if ck_S3(self, 2) && ck_TrivD(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_TrivD(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_TrivD(k); let a = ad_TrivD(&x); ensure!(ffi::c_take_TrivD(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_TrivD(k); ensure!(ck_TrivD(&x, k) && addr() == ad_TrivD(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_TrivD(k, false).map_err(|e| e.to_string())?; ensure!(ck_TrivD(&x, k) && addr() == ad_TrivD(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_TrivD(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_TrivD(k); let a = ad_TrivD(&x); let y = ffi::c_echo_TrivD(x, k); ensure!(addr() == a && ad_TrivD(&y) == a && ck_TrivD(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_TrivD(200, mk_TrivD(k), -1.5, k, mk_TrivD((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_TrivD(k); let y = o.c_m_TrivD(x, k); ensure!(addr() == 0 && ck_TrivD(&y, k), "method"); }
  7 => { fn f(x: TrivD, k: i32) -> TrivD { note(if ck_TrivD(&x, k) { ad_TrivD(&x) } else { 1 }); x } ensure!(ffi::c_cb_TrivD(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_TrivD(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_TrivM(mut x: TrivM, k: i32) -> bool { let a = ad_TrivM(&x); let ok = ck_TrivM(&x, k);  note(a); ok }
fn r_make_TrivM(k: i32) -> TrivM { let x = mk_TrivM(k); note(ad_TrivM(&x)); x }
fn r_try_TrivM(k: i32, fail: bool) -> R<TrivM> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_TrivM(k); note(ad_TrivM(&x)); Ok(x) }
fn r_echo_TrivM(x: TrivM, k: i32) -> TrivM { note(if ck_TrivM(&x, k) { ad_TrivM(&x) } else { 1 }); x }
fn r_mix_TrivM(a: u8, x: TrivM, b: f64, k: i32, y: TrivM, c: u16) -> R<bool> { Ok(a == 200 && ck_TrivM(&x, k) && b == -1.5 && ck_TrivM(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_TrivM(&self, x: TrivM, k: i32) -> TrivM { note(if ck_RObj(self, 2) && ck_TrivM(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_TrivM(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_TrivM(k); let a = ad_TrivM(&x); ensure!(ffi::c_take_TrivM(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_TrivM(k); ensure!(ck_TrivM(&x, k) && addr() == ad_TrivM(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_TrivM(k, false).map_err(|e| e.to_string())?; ensure!(ck_TrivM(&x, k) && addr() == ad_TrivM(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_TrivM(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_TrivM(k); let a = ad_TrivM(&x); let y = ffi::c_echo_TrivM(x, k); ensure!(addr() == a && ad_TrivM(&y) == a && ck_TrivM(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_TrivM(200, mk_TrivM(k), -1.5, k, mk_TrivM((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_TrivM(k); let y = o.c_m_TrivM(x, k); ensure!(addr() == 0 && ck_TrivM(&y, k), "method"); }
  7 => { fn f(x: TrivM, k: i32) -> TrivM { note(if ck_TrivM(&x, k) { ad_TrivM(&x) } else { 1 }); x } ensure!(ffi::c_cb_TrivM(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_TrivM(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_arr4_u8(mut x: [u8; 4], k: i32) -> bool { let a = ad_arr4_u8(&x); let ok = ck_arr4_u8(&x, k);  note(a); ok }
fn r_make_arr4_u8(k: i32) -> [u8; 4] { let x = mk_arr4_u8(k); note(ad_arr4_u8(&x)); x }
fn r_try_arr4_u8(k: i32, fail: bool) -> R<[u8; 4]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_arr4_u8(k); note(ad_arr4_u8(&x)); Ok(x) }
fn r_echo_arr4_u8(x: [u8; 4], k: i32) -> [u8; 4] { note(if ck_arr4_u8(&x, k) { ad_arr4_u8(&x) } else { 1 }); x }
fn r_mix_arr4_u8(a: u8, x: [u8; 4], b: f64, k: i32, y: [u8; 4], c: u16) -> R<bool> { Ok(a == 200 && ck_arr4_u8(&x, k) && b == -1.5 && ck_arr4_u8(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_arr4_u8(&mut self, x: [u8; 4], k: i32) -> [u8; 4] { note(if ck_RObj(self, 2) && ck_arr4_u8(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_arr4_u8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_arr4_u8(k); let a = ad_arr4_u8(&x); ensure!(ffi::c_take_arr4_u8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_arr4_u8(k); ensure!(ck_arr4_u8(&x, k) && addr() == ad_arr4_u8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_arr4_u8(k, false).map_err(|e| e.to_string())?; ensure!(ck_arr4_u8(&x, k) && addr() == ad_arr4_u8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_arr4_u8(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_arr4_u8(k); let a = ad_arr4_u8(&x); let y = ffi::c_echo_arr4_u8(x, k); ensure!(addr() == a && ad_arr4_u8(&y) == a && ck_arr4_u8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_arr4_u8(200, mk_arr4_u8(k), -1.5, k, mk_arr4_u8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_arr4_u8(k); let y = o.c_m_arr4_u8(x, k); ensure!(addr() == 0 && ck_arr4_u8(&y, k), "method"); }
  7 => { fn f(x: [u8; 4], k: i32) -> [u8; 4] { note(if ck_arr4_u8(&x, k) { ad_arr4_u8(&x) } else { 1 }); x } ensure!(ffi::c_cb_arr4_u8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_arr4_u8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_arr1_u32(mut x: [u32; 1], k: i32) -> bool { let a = ad_arr1_u32(&x); let ok = ck_arr1_u32(&x, k);  note(a); ok }
fn r_make_arr1_u32(k: i32) -> [u32; 1] { let x = mk_arr1_u32(k); note(ad_arr1_u32(&x)); x }
fn r_try_arr1_u32(k: i32, fail: bool) -> R<[u32; 1]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_arr1_u32(k); note(ad_arr1_u32(&x)); Ok(x) }
fn r_echo_arr1_u32(x: [u32; 1], k: i32) -> [u32; 1] { note(if ck_arr1_u32(&x, k) { ad_arr1_u32(&x) } else { 1 }); x }
fn r_mix_arr1_u32(a: u8, x: [u32; 1], b: f64, k: i32, y: [u32; 1], c: u16) -> R<bool> { Ok(a == 200 && ck_arr1_u32(&x, k) && b == -1.5 && ck_arr1_u32(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_arr1_u32(&self, x: [u32; 1], k: i32) -> [u32; 1] { note(if ck_S3(self, 2) && ck_arr1_u32(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_arr1_u32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_arr1_u32(k); let a = ad_arr1_u32(&x); ensure!(ffi::c_take_arr1_u32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_arr1_u32(k); ensure!(ck_arr1_u32(&x, k) && addr() == ad_arr1_u32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_arr1_u32(k, false).map_err(|e| e.to_string())?; ensure!(ck_arr1_u32(&x, k) && addr() == ad_arr1_u32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_arr1_u32(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_arr1_u32(k); let a = ad_arr1_u32(&x); let y = ffi::c_echo_arr1_u32(x, k); ensure!(addr() == a && ad_arr1_u32(&y) == a && ck_arr1_u32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_arr1_u32(200, mk_arr1_u32(k), -1.5, k, mk_arr1_u32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_arr1_u32(k); let y = o.c_m_arr1_u32(x, k); ensure!(addr() == 0 && ck_arr1_u32(&y, k), "method"); }
  7 => { fn f(x: [u32; 1], k: i32) -> [u32; 1] { note(if ck_arr1_u32(&x, k) { ad_arr1_u32(&x) } else { 1 }); x } ensure!(ffi::c_cb_arr1_u32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_arr1_u32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_arr2_String(mut x: [String; 2], k: i32) -> bool { let a = ad_arr2_String(&x); let ok = ck_arr2_String(&x, k);  note(a); ok }
fn r_make_arr2_String(k: i32) -> [String; 2] { let x = mk_arr2_String(k); note(ad_arr2_String(&x)); x }
fn r_try_arr2_String(k: i32, fail: bool) -> R<[String; 2]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_arr2_String(k); note(ad_arr2_String(&x)); Ok(x) }
fn r_echo_arr2_String(x: [String; 2], k: i32) -> [String; 2] { note(if ck_arr2_String(&x, k) { ad_arr2_String(&x) } else { 1 }); x }
fn r_mix_arr2_String(a: u8, x: [String; 2], b: f64, k: i32, y: [String; 2], c: u16) -> R<bool> { Ok(a == 200 && ck_arr2_String(&x, k) && b == -1.5 && ck_arr2_String(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_arr2_String(&mut self, x: [String; 2], k: i32) -> [String; 2] { note(if ck_S3(self, 2) && ck_arr2_String(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_arr2_String(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_arr2_String(k); let a = ad_arr2_String(&x); ensure!(ffi::c_take_arr2_String(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_arr2_String(k); ensure!(ck_arr2_String(&x, k) && addr() == ad_arr2_String(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_arr2_String(k, false).map_err(|e| e.to_string())?; ensure!(ck_arr2_String(&x, k) && addr() == ad_arr2_String(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_arr2_String(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_arr2_String(k); let a = ad_arr2_String(&x); let y = ffi::c_echo_arr2_String(x, k); ensure!(addr() == a && ad_arr2_String(&y) == a && ck_arr2_String(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_arr2_String(200, mk_arr2_String(k), -1.5, k, mk_arr2_String((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_arr2_String(k); let y = o.c_m_arr2_String(x, k); ensure!(addr() == 0 && ck_arr2_String(&y, k), "method"); }
  7 => { fn f(x: [String; 2], k: i32) -> [String; 2] { note(if ck_arr2_String(&x, k) { ad_arr2_String(&x) } else { 1 }); x } ensure!(ffi::c_cb_arr2_String(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_arr2_String(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_arr3_S2(mut x: [S2; 3], k: i32) -> bool { let a = ad_arr3_S2(&x); let ok = ck_arr3_S2(&x, k);  note(a); ok }
fn r_make_arr3_S2(k: i32) -> [S2; 3] { let x = mk_arr3_S2(k); note(ad_arr3_S2(&x)); x }
fn r_try_arr3_S2(k: i32, fail: bool) -> R<[S2; 3]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_arr3_S2(k); note(ad_arr3_S2(&x)); Ok(x) }
fn r_echo_arr3_S2(x: [S2; 3], k: i32) -> [S2; 3] { note(if ck_arr3_S2(&x, k) { ad_arr3_S2(&x) } else { 1 }); x }
fn r_mix_arr3_S2(a: u8, x: [S2; 3], b: f64, k: i32, y: [S2; 3], c: u16) -> R<bool> { Ok(a == 200 && ck_arr3_S2(&x, k) && b == -1.5 && ck_arr3_S2(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_arr3_S2(&self, x: [S2; 3], k: i32) -> [S2; 3] { note(if ck_RObj(self, 2) && ck_arr3_S2(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_arr3_S2(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_arr3_S2(k); let a = ad_arr3_S2(&x); ensure!(ffi::c_take_arr3_S2(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_arr3_S2(k); ensure!(ck_arr3_S2(&x, k) && addr() == ad_arr3_S2(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_arr3_S2(k, false).map_err(|e| e.to_string())?; ensure!(ck_arr3_S2(&x, k) && addr() == ad_arr3_S2(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_arr3_S2(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_arr3_S2(k); let a = ad_arr3_S2(&x); let y = ffi::c_echo_arr3_S2(x, k); ensure!(addr() == a && ad_arr3_S2(&y) == a && ck_arr3_S2(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_arr3_S2(200, mk_arr3_S2(k), -1.5, k, mk_arr3_S2((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_arr3_S2(k); let y = o.c_m_arr3_S2(x, k); ensure!(addr() == 0 && ck_arr3_S2(&y, k), "method"); }
  7 => { fn f(x: [S2; 3], k: i32) -> [S2; 3] { note(if ck_arr3_S2(&x, k) { ad_arr3_S2(&x) } else { 1 }); x } ensure!(ffi::c_cb_arr3_S2(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_arr3_S2(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_arr2_arr2_i32(mut x: [[i32; 2]; 2], k: i32) -> bool { let a = ad_arr2_arr2_i32(&x); let ok = ck_arr2_arr2_i32(&x, k);  note(a); ok }
fn r_make_arr2_arr2_i32(k: i32) -> [[i32; 2]; 2] { let x = mk_arr2_arr2_i32(k); note(ad_arr2_arr2_i32(&x)); x }
fn r_try_arr2_arr2_i32(k: i32, fail: bool) -> R<[[i32; 2]; 2]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_arr2_arr2_i32(k); note(ad_arr2_arr2_i32(&x)); Ok(x) }
fn r_echo_arr2_arr2_i32(x: [[i32; 2]; 2], k: i32) -> [[i32; 2]; 2] { note(if ck_arr2_arr2_i32(&x, k) { ad_arr2_arr2_i32(&x) } else { 1 }); x }
fn r_mix_arr2_arr2_i32(a: u8, x: [[i32; 2]; 2], b: f64, k: i32, y: [[i32; 2]; 2], c: u16) -> R<bool> { Ok(a == 200 && ck_arr2_arr2_i32(&x, k) && b == -1.5 && ck_arr2_arr2_i32(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_arr2_arr2_i32(&mut self, x: [[i32; 2]; 2], k: i32) -> [[i32; 2]; 2] { note(if ck_RObj(self, 2) && ck_arr2_arr2_i32(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_arr2_arr2_i32(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_arr2_arr2_i32(k); let a = ad_arr2_arr2_i32(&x); ensure!(ffi::c_take_arr2_arr2_i32(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_arr2_arr2_i32(k); ensure!(ck_arr2_arr2_i32(&x, k) && addr() == ad_arr2_arr2_i32(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_arr2_arr2_i32(k, false).map_err(|e| e.to_string())?; ensure!(ck_arr2_arr2_i32(&x, k) && addr() == ad_arr2_arr2_i32(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_arr2_arr2_i32(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_arr2_arr2_i32(k); let a = ad_arr2_arr2_i32(&x); let y = ffi::c_echo_arr2_arr2_i32(x, k); ensure!(addr() == a && ad_arr2_arr2_i32(&y) == a && ck_arr2_arr2_i32(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_arr2_arr2_i32(200, mk_arr2_arr2_i32(k), -1.5, k, mk_arr2_arr2_i32((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_arr2_arr2_i32(k); let y = o.c_m_arr2_arr2_i32(x, k); ensure!(addr() == 0 && ck_arr2_arr2_i32(&y, k), "method"); }
  7 => { fn f(x: [[i32; 2]; 2], k: i32) -> [[i32; 2]; 2] { note(if ck_arr2_arr2_i32(&x, k) { ad_arr2_arr2_i32(&x) } else { 1 }); x } ensure!(ffi::c_cb_arr2_arr2_i32(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_arr2_arr2_i32(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_arr2_Eu8(mut x: [Eu8; 2], k: i32) -> bool { let a = ad_arr2_Eu8(&x); let ok = ck_arr2_Eu8(&x, k);  note(a); ok }
fn r_make_arr2_Eu8(k: i32) -> [Eu8; 2] { let x = mk_arr2_Eu8(k); note(ad_arr2_Eu8(&x)); x }
fn r_try_arr2_Eu8(k: i32, fail: bool) -> R<[Eu8; 2]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_arr2_Eu8(k); note(ad_arr2_Eu8(&x)); Ok(x) }
fn r_echo_arr2_Eu8(x: [Eu8; 2], k: i32) -> [Eu8; 2] { note(if ck_arr2_Eu8(&x, k) { ad_arr2_Eu8(&x) } else { 1 }); x }
fn r_mix_arr2_Eu8(a: u8, x: [Eu8; 2], b: f64, k: i32, y: [Eu8; 2], c: u16) -> R<bool> { Ok(a == 200 && ck_arr2_Eu8(&x, k) && b == -1.5 && ck_arr2_Eu8(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_arr2_Eu8(&self, x: [Eu8; 2], k: i32) -> [Eu8; 2] { note(if ck_S3(self, 2) && ck_arr2_Eu8(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_arr2_Eu8(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_arr2_Eu8(k); let a = ad_arr2_Eu8(&x); ensure!(ffi::c_take_arr2_Eu8(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_arr2_Eu8(k); ensure!(ck_arr2_Eu8(&x, k) && addr() == ad_arr2_Eu8(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_arr2_Eu8(k, false).map_err(|e| e.to_string())?; ensure!(ck_arr2_Eu8(&x, k) && addr() == ad_arr2_Eu8(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_arr2_Eu8(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_arr2_Eu8(k); let a = ad_arr2_Eu8(&x); let y = ffi::c_echo_arr2_Eu8(x, k); ensure!(addr() == a && ad_arr2_Eu8(&y) == a && ck_arr2_Eu8(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_arr2_Eu8(200, mk_arr2_Eu8(k), -1.5, k, mk_arr2_Eu8((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_arr2_Eu8(k); let y = o.c_m_arr2_Eu8(x, k); ensure!(addr() == 0 && ck_arr2_Eu8(&y, k), "method"); }
  7 => { fn f(x: [Eu8; 2], k: i32) -> [Eu8; 2] { note(if ck_arr2_Eu8(&x, k) { ad_arr2_Eu8(&x) } else { 1 }); x } ensure!(ffi::c_cb_arr2_Eu8(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_arr2_Eu8(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_arr2_f64(mut x: [f64; 2], k: i32) -> bool { let a = ad_arr2_f64(&x); let ok = ck_arr2_f64(&x, k);  note(a); ok }
fn r_make_arr2_f64(k: i32) -> [f64; 2] { let x = mk_arr2_f64(k); note(ad_arr2_f64(&x)); x }
fn r_try_arr2_f64(k: i32, fail: bool) -> R<[f64; 2]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_arr2_f64(k); note(ad_arr2_f64(&x)); Ok(x) }
fn r_echo_arr2_f64(x: [f64; 2], k: i32) -> [f64; 2] { note(if ck_arr2_f64(&x, k) { ad_arr2_f64(&x) } else { 1 }); x }
fn r_mix_arr2_f64(a: u8, x: [f64; 2], b: f64, k: i32, y: [f64; 2], c: u16) -> R<bool> { Ok(a == 200 && ck_arr2_f64(&x, k) && b == -1.5 && ck_arr2_f64(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_arr2_f64(&mut self, x: [f64; 2], k: i32) -> [f64; 2] { note(if ck_S3(self, 2) && ck_arr2_f64(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_arr2_f64(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_arr2_f64(k); let a = ad_arr2_f64(&x); ensure!(ffi::c_take_arr2_f64(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_arr2_f64(k); ensure!(ck_arr2_f64(&x, k) && addr() == ad_arr2_f64(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_arr2_f64(k, false).map_err(|e| e.to_string())?; ensure!(ck_arr2_f64(&x, k) && addr() == ad_arr2_f64(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_arr2_f64(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_arr2_f64(k); let a = ad_arr2_f64(&x); let y = ffi::c_echo_arr2_f64(x, k); ensure!(addr() == a && ad_arr2_f64(&y) == a && ck_arr2_f64(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_arr2_f64(200, mk_arr2_f64(k), -1.5, k, mk_arr2_f64((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_arr2_f64(k); let y = o.c_m_arr2_f64(x, k); ensure!(addr() == 0 && ck_arr2_f64(&y, k), "method"); }
  7 => { fn f(x: [f64; 2], k: i32) -> [f64; 2] { note(if ck_arr2_f64(&x, k) { ad_arr2_f64(&x) } else { 1 }); x } ensure!(ffi::c_cb_arr2_f64(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_arr2_f64(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_arr9_bool(mut x: [bool; 9], k: i32) -> bool { let a = ad_arr9_bool(&x); let ok = ck_arr9_bool(&x, k);  note(a); ok }
fn r_make_arr9_bool(k: i32) -> [bool; 9] { let x = mk_arr9_bool(k); note(ad_arr9_bool(&x)); x }
fn r_try_arr9_bool(k: i32, fail: bool) -> R<[bool; 9]> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_arr9_bool(k); note(ad_arr9_bool(&x)); Ok(x) }
fn r_echo_arr9_bool(x: [bool; 9], k: i32) -> [bool; 9] { note(if ck_arr9_bool(&x, k) { ad_arr9_bool(&x) } else { 1 }); x }
fn r_mix_arr9_bool(a: u8, x: [bool; 9], b: f64, k: i32, y: [bool; 9], c: u16) -> R<bool> { Ok(a == 200 && ck_arr9_bool(&x, k) && b == -1.5 && ck_arr9_bool(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_arr9_bool(&self, x: [bool; 9], k: i32) -> [bool; 9] { note(if ck_RObj(self, 2) && ck_arr9_bool(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_arr9_bool(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_arr9_bool(k); let a = ad_arr9_bool(&x); ensure!(ffi::c_take_arr9_bool(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_arr9_bool(k); ensure!(ck_arr9_bool(&x, k) && addr() == ad_arr9_bool(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_arr9_bool(k, false).map_err(|e| e.to_string())?; ensure!(ck_arr9_bool(&x, k) && addr() == ad_arr9_bool(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_arr9_bool(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_arr9_bool(k); let a = ad_arr9_bool(&x); let y = ffi::c_echo_arr9_bool(x, k); ensure!(addr() == a && ad_arr9_bool(&y) == a && ck_arr9_bool(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_arr9_bool(200, mk_arr9_bool(k), -1.5, k, mk_arr9_bool((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_arr9_bool(k); let y = o.c_m_arr9_bool(x, k); ensure!(addr() == 0 && ck_arr9_bool(&y, k), "method"); }
  7 => { fn f(x: [bool; 9], k: i32) -> [bool; 9] { note(if ck_arr9_bool(&x, k) { ad_arr9_bool(&x) } else { 1 }); x } ensure!(ffi::c_cb_arr9_bool(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_arr9_bool(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_CObj(mut x: UniquePtr<CObj>, k: i32) -> bool { let a = ad_UniquePtr_CObj(&x); let ok = ck_UniquePtr_CObj(&x, k);  note(a); ok }
fn r_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj> { let x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(&x)); x }
fn r_try_UniquePtr_CObj(k: i32, fail: bool) -> R<UniquePtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(&x)); Ok(x) }
fn r_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_UniquePtr_CObj(&x, k) { ad_UniquePtr_CObj(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CObj(&x, k) && b == -1.5 && ck_UniquePtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_UniquePtr_CObj(&mut self, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_RObj(self, 2) && ck_UniquePtr_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CObj(k); let a = ad_UniquePtr_CObj(&x); ensure!(ffi::c_take_UniquePtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CObj(k); ensure!(ck_UniquePtr_CObj(&x, k) && addr() == ad_UniquePtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CObj(&x, k) && addr() == ad_UniquePtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CObj(k); let a = ad_UniquePtr_CObj(&x); let y = ffi::c_echo_UniquePtr_CObj(x, k); ensure!(addr() == a && ad_UniquePtr_CObj(&y) == a && ck_UniquePtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CObj(200, mk_UniquePtr_CObj(k), -1.5, k, mk_UniquePtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_UniquePtr_CObj(k); let y = o.c_m_UniquePtr_CObj(x, k); ensure!(addr() == 0 && ck_UniquePtr_CObj(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_UniquePtr_CObj(&x, k) { ad_UniquePtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_SharedPtr_CObj(mut x: SharedPtr<CObj>, k: i32) -> bool { let a = ad_SharedPtr_CObj(&x); let ok = ck_SharedPtr_CObj(&x, k);  note(a); ok }
fn r_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj> { let x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(&x)); x }
fn r_try_SharedPtr_CObj(k: i32, fail: bool) -> R<SharedPtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(&x)); Ok(x) }
fn r_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_SharedPtr_CObj(&x, k) { ad_SharedPtr_CObj(&x) } else { 1 }); x }
fn r_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_SharedPtr_CObj(&x, k) && b == -1.5 && ck_SharedPtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_SharedPtr_CObj(&self, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_S3(self, 2) && ck_SharedPtr_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_SharedPtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_SharedPtr_CObj(k); let a = ad_SharedPtr_CObj(&x); ensure!(ffi::c_take_SharedPtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_SharedPtr_CObj(k); ensure!(ck_SharedPtr_CObj(&x, k) && addr() == ad_SharedPtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_SharedPtr_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_SharedPtr_CObj(&x, k) && addr() == ad_SharedPtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_SharedPtr_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_SharedPtr_CObj(k); let a = ad_SharedPtr_CObj(&x); let y = ffi::c_echo_SharedPtr_CObj(x, k); ensure!(addr() == a && ad_SharedPtr_CObj(&y) == a && ck_SharedPtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_SharedPtr_CObj(200, mk_SharedPtr_CObj(k), -1.5, k, mk_SharedPtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_SharedPtr_CObj(k); let y = o.c_m_SharedPtr_CObj(x, k); ensure!(addr() == 0 && ck_SharedPtr_CObj(&y, k), "method"); }
  7 => { fn f(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_SharedPtr_CObj(&x, k) { ad_SharedPtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_SharedPtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_SharedPtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_UniquePtr_CxxString(mut x: UniquePtr<CxxString>, k: i32) -> bool { let a = ad_UniquePtr_CxxString(&x); let ok = ck_UniquePtr_CxxString(&x, k);  note(a); ok }
fn r_make_UniquePtr_CxxString(k: i32) -> UniquePtr<CxxString> { let x = mk_UniquePtr_CxxString(k); note(ad_UniquePtr_CxxString(&x)); x }
fn r_try_UniquePtr_CxxString(k: i32, fail: bool) -> R<UniquePtr<CxxString>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CxxString(k); note(ad_UniquePtr_CxxString(&x)); Ok(x) }
fn r_echo_UniquePtr_CxxString(x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString> { note(if ck_UniquePtr_CxxString(&x, k) { ad_UniquePtr_CxxString(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CxxString(a: u8, x: UniquePtr<CxxString>, b: f64, k: i32, y: UniquePtr<CxxString>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CxxString(&x, k) && b == -1.5 && ck_UniquePtr_CxxString(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_UniquePtr_CxxString(&mut self, x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString> { note(if ck_S3(self, 2) && ck_UniquePtr_CxxString(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CxxString(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CxxString(k); let a = ad_UniquePtr_CxxString(&x); ensure!(ffi::c_take_UniquePtr_CxxString(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CxxString(k); ensure!(ck_UniquePtr_CxxString(&x, k) && addr() == ad_UniquePtr_CxxString(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CxxString(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CxxString(&x, k) && addr() == ad_UniquePtr_CxxString(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CxxString(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CxxString(k); let a = ad_UniquePtr_CxxString(&x); let y = ffi::c_echo_UniquePtr_CxxString(x, k); ensure!(addr() == a && ad_UniquePtr_CxxString(&y) == a && ck_UniquePtr_CxxString(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CxxString(200, mk_UniquePtr_CxxString(k), -1.5, k, mk_UniquePtr_CxxString((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = mk_S3(2); let o = &mut s; let x = mk_UniquePtr_CxxString(k); let y = o.c_m_UniquePtr_CxxString(x, k); ensure!(addr() == 0 && ck_UniquePtr_CxxString(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CxxString>, k: i32) -> UniquePtr<CxxString> { note(if ck_UniquePtr_CxxString(&x, k) { ad_UniquePtr_CxxString(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CxxString(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CxxString(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
pub fn systems() -> Vec<System> { let mut v = vec![];
let ops: Vec<String> = (0..60).map(|i| format!("{}({})", ["c_take", "c_make", "c_try", "c_try_fail", "c_echo", "c_mix", "c_method", "c_callback", "r_take", "r_make", "r_try", "r_try_fail", "r_echo", "r_mix", "r_method"][i / 4], i % 4)).collect();
let mut add = |n: &str, f: unsafe fn(usize, i32) -> R<()>| { v.push(rust_system(&format!("sig-{}-{}", "c09a", n), ops.clone(), move |t, key| { for x in t { unsafe { f(*x as usize / 4, *x as i32 % 4)? } } key.push(t.last().map_or(255, |x| *x as u8)); Ok(true) })); };
add("bool", run_bool);
add("u8", run_u8);
add("i8", run_i8);
add("u16", run_u16);
add("i16", run_i16);
add("u32", run_u32);
add("i32", run_i32);
add("u64", run_u64);
add("i64", run_i64);
add("usize", run_usize);
add("isize", run_isize);
add("c_char", run_c_char);
add("f32", run_f32);
add("f64", run_f64);
add("Eu8", run_Eu8);
add("Ei8", run_Ei8);
add("Eu16", run_Eu16);
add("Ei32", run_Ei32);
add("Eu32", run_Eu32);
add("Ei64", run_Ei64);
add("Eu64", run_Eu64);
add("XE", run_XE);
add("str", run_str);
add("String", run_String);
add("S1", run_S1);
add("S2", run_S2);
add("S3", run_S3);
add("S4", run_S4);
add("S5", run_S5);
add("S6", run_S6);
add("S7", run_S7);
add("S8", run_S8);
add("S9", run_S9);
add("S10", run_S10);
add("S11", run_S11);
add("S12", run_S12);
add("S13", run_S13);
add("S14", run_S14);
add("S15", run_S15);
add("S16", run_S16);
add("S17", run_S17);
add("S18", run_S18);
add("S19", run_S19);
add("S20", run_S20);
add("S21", run_S21);
add("S22", run_S22);
add("S23", run_S23);
add("TrivA", run_TrivA);
add("TrivB", run_TrivB);
add("TrivC", run_TrivC);
add("TrivD", run_TrivD);
add("TrivM", run_TrivM);
add("arr4_u8", run_arr4_u8);
add("arr1_u32", run_arr1_u32);
add("arr2_String", run_arr2_String);
add("arr3_S2", run_arr3_S2);
add("arr2_arr2_i32", run_arr2_arr2_i32);
add("arr2_Eu8", run_arr2_Eu8);
add("arr2_f64", run_arr2_f64);
add("arr9_bool", run_arr9_bool);
add("UniquePtr_CObj", run_UniquePtr_CObj);
add("SharedPtr_CObj", run_SharedPtr_CObj);
add("UniquePtr_CxxString", run_UniquePtr_CxxString);
v }
