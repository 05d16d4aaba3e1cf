// Generated by gen_sig.py.
#![allow(clippy::all, unused_braces, static_mut_refs)]
use crate::engine::{rust_system, System};
use crate::ensure;
use core::ffi::c_char;
use core::pin::Pin;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use self::ffi::*;
static TXT: [&str; 4] = ["", "a", "h\u{e9}\0x", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\u{1F600}"];
#[unsafe(no_mangle)]
pub static mut vk_addr_c09d: usize = 0;
fn addr() -> usize { unsafe { vk_addr_c09d } }
fn note(a: usize) { unsafe { vk_addr_c09d = a } }
pub struct RObj { tag: i32, pad: String }
impl RObj {
    fn new(k: i32) -> Self { RObj { tag: k, pad: TXT[k as usize].to_owned() } }
    fn r_tag(&self) -> i32 { self.tag }
    fn r_set(&mut self, k: i32) { *self = RObj::new(k) }
}
fn r_new(k: i32) -> Box<RObj> { Box::new(RObj::new(k)) }
type R<T> = Result<T, String>;
#[cxx::bridge(namespace = "c09d")]
mod ffi {
    struct S3 { f0: f32, f1: f32 }
    struct S6 { f0: u64, f1: u32, f2: u64 }
    struct S2 { f0: u8, f1: u8 }
    extern "C++" { type TrivA = crate::c09d::TrivA; }
    #[repr(u8)] #[derive(Debug)] enum Eu8 { V0 = 0, V1 = 1, V2 = 128, V3 = 255 }
    struct S7 { f0: String }
    unsafe extern "C++" {
        include!("rt/cc/c09d.hpp");
        type CObj;
        fn c_tag(self: &CObj) -> i32;
        fn c_set(self: Pin<&mut CObj>, k: i32);
        fn c_take_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> bool;
        fn c_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj>;
        fn c_try_UniquePtr_CObj(k: i32, fail: bool) -> Result<UniquePtr<CObj>>;
        fn c_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn c_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_UniquePtr_CObj(self: &CObj, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn c_cb_UniquePtr_CObj(f: fn(UniquePtr<CObj>, i32) -> UniquePtr<CObj>, k: i32) -> bool;
        fn c_run_UniquePtr_CObj(pos: i32, k: i32) -> i32;
        fn c_take_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> bool;
        fn c_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj>;
        fn c_try_SharedPtr_CObj(k: i32, fail: bool) -> Result<SharedPtr<CObj>>;
        fn c_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn c_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn c_m_SharedPtr_CObj(self: Pin<&mut CObj>, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn c_cb_SharedPtr_CObj(f: fn(SharedPtr<CObj>, i32) -> SharedPtr<CObj>, k: i32) -> bool;
        fn c_run_SharedPtr_CObj(pos: i32, k: i32) -> i32;
        fn c_abi0(a0: u8, a1: u8, k: i32);
        fn c_run_abi0(k: i32) -> bool;
        fn c_abi1(a0: u8, a1: u64, k: i32) -> String;
        fn c_run_abi1(k: i32) -> bool;
        fn c_abi2(a0: u8, a1: f32, k: i32) -> S3;
        fn c_run_abi2(k: i32) -> bool;
        fn c_abi3(a0: u8, a1: f64, k: i32) -> S6;
        fn c_run_abi3(k: i32) -> bool;
        fn c_abi4(a0: u8, a1: S2, k: i32) -> Box<RObj>;
        fn c_run_abi4(k: i32) -> bool;
        fn c_abi5(a0: u8, a1: S3, k: i32) -> u8;
        fn c_run_abi5(k: i32) -> bool;
        fn c_abi6(a0: u8, a1: S6, k: i32) -> f64;
        fn c_run_abi6(k: i32) -> bool;
        fn c_abi7(a0: u8, a1: String, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi7(k: i32) -> bool;
        fn c_abi8(a0: u8, a1: &str, k: i32) -> Vec<u8>;
        fn c_run_abi8(k: i32) -> bool;
        fn c_abi9(a0: u8, a1: Box<RObj>, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi9(k: i32) -> bool;
        fn c_abi10(a0: u8, a1: UniquePtr<CObj>, k: i32) -> TrivA;
        fn c_run_abi10(k: i32) -> bool;
        fn c_abi11(a0: u8, a1: &[u16], k: i32) -> Eu8;
        fn c_run_abi11(k: i32) -> bool;
        fn c_abi12(a0: u8, a1: TrivA, k: i32) -> [u8; 4];
        fn c_run_abi12(k: i32) -> bool;
        fn c_abi13(a0: u8, a1: SharedPtr<CObj>, k: i32);
        fn c_run_abi13(k: i32) -> bool;
        fn c_abi14(a0: u64, a1: u8, k: i32) -> Result<String>;
        fn c_run_abi14(k: i32) -> bool;
        fn c_abi15(a0: u64, a1: u64, k: i32) -> Result<S3>;
        fn c_run_abi15(k: i32) -> bool;
        fn c_abi16(a0: u64, a1: f32, k: i32) -> Result<S6>;
        fn c_run_abi16(k: i32) -> bool;
        fn c_abi17(a0: u64, a1: f64, k: i32) -> Result<Box<RObj>>;
        fn c_run_abi17(k: i32) -> bool;
        fn c_abi18(a0: u64, a1: S2, k: i32) -> Result<u8>;
        fn c_run_abi18(k: i32) -> bool;
        fn c_abi19(a0: u64, a1: S3, k: i32) -> Result<f64>;
        fn c_run_abi19(k: i32) -> bool;
        fn c_abi20(a0: u64, a1: S6, k: i32) -> Result<UniquePtr<CObj>>;
        fn c_run_abi20(k: i32) -> bool;
        fn c_abi21(a0: u64, a1: String, k: i32) -> Result<Vec<u8>>;
        fn c_run_abi21(k: i32) -> bool;
        fn c_abi22(a0: u64, a1: &str, k: i32) -> Result<SharedPtr<CObj>>;
        fn c_run_abi22(k: i32) -> bool;
        fn c_abi23(a0: u64, a1: Box<RObj>, k: i32) -> Result<TrivA>;
        fn c_run_abi23(k: i32) -> bool;
        fn c_abi24(a0: u64, a1: UniquePtr<CObj>, k: i32) -> Result<Eu8>;
        fn c_run_abi24(k: i32) -> bool;
        fn c_abi25(a0: u64, a1: &[u16], k: i32) -> Result<[u8; 4]>;
        fn c_run_abi25(k: i32) -> bool;
        fn c_abi26(a0: u64, a1: TrivA, k: i32);
        fn c_run_abi26(k: i32) -> bool;
        fn c_abi27(a0: u64, a1: SharedPtr<CObj>, k: i32) -> String;
        fn c_run_abi27(k: i32) -> bool;
        fn c_abi28(a0: f32, a1: u8, k: i32) -> S3;
        fn c_run_abi28(k: i32) -> bool;
        fn c_abi29(a0: f32, a1: u64, k: i32) -> S6;
        fn c_run_abi29(k: i32) -> bool;
        fn c_abi30(a0: f32, a1: f32, k: i32) -> Box<RObj>;
        fn c_run_abi30(k: i32) -> bool;
        fn c_abi31(a0: f32, a1: f64, k: i32) -> u8;
        fn c_run_abi31(k: i32) -> bool;
        fn c_abi32(a0: f32, a1: S2, k: i32) -> f64;
        fn c_run_abi32(k: i32) -> bool;
        fn c_abi33(a0: f32, a1: S3, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi33(k: i32) -> bool;
        fn c_abi34(a0: f32, a1: S6, k: i32) -> Vec<u8>;
        fn c_run_abi34(k: i32) -> bool;
        fn c_abi35(a0: f32, a1: String, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi35(k: i32) -> bool;
        fn c_abi36(a0: f32, a1: &str, k: i32) -> TrivA;
        fn c_run_abi36(k: i32) -> bool;
        fn c_abi37(a0: f32, a1: Box<RObj>, k: i32) -> Eu8;
        fn c_run_abi37(k: i32) -> bool;
        fn c_abi38(a0: f32, a1: UniquePtr<CObj>, k: i32) -> [u8; 4];
        fn c_run_abi38(k: i32) -> bool;
        fn c_abi39(a0: f32, a1: &[u16], k: i32);
        fn c_run_abi39(k: i32) -> bool;
        fn c_abi40(a0: f32, a1: TrivA, k: i32) -> String;
        fn c_run_abi40(k: i32) -> bool;
        fn c_abi41(a0: f32, a1: SharedPtr<CObj>, k: i32) -> S3;
        fn c_run_abi41(k: i32) -> bool;
        fn c_abi42(a0: f64, a1: u8, k: i32) -> S6;
        fn c_run_abi42(k: i32) -> bool;
        fn c_abi43(a0: f64, a1: u64, k: i32) -> Box<RObj>;
        fn c_run_abi43(k: i32) -> bool;
        fn c_abi44(a0: f64, a1: f32, k: i32) -> u8;
        fn c_run_abi44(k: i32) -> bool;
        fn c_abi45(a0: f64, a1: f64, k: i32) -> f64;
        fn c_run_abi45(k: i32) -> bool;
        fn c_abi46(a0: f64, a1: S2, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi46(k: i32) -> bool;
        fn c_abi47(a0: f64, a1: S3, k: i32) -> Vec<u8>;
        fn c_run_abi47(k: i32) -> bool;
        fn c_abi48(a0: f64, a1: S6, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi48(k: i32) -> bool;
        fn c_abi49(a0: f64, a1: String, k: i32) -> TrivA;
        fn c_run_abi49(k: i32) -> bool;
        fn c_abi50(a0: f64, a1: &str, k: i32) -> Eu8;
        fn c_run_abi50(k: i32) -> bool;
        fn c_abi51(a0: f64, a1: Box<RObj>, k: i32) -> [u8; 4];
        fn c_run_abi51(k: i32) -> bool;
        fn c_abi52(a0: f64, a1: UniquePtr<CObj>, k: i32);
        fn c_run_abi52(k: i32) -> bool;
        fn c_abi53(a0: f64, a1: &[u16], k: i32) -> Result<String>;
        fn c_run_abi53(k: i32) -> bool;
        fn c_abi54(a0: f64, a1: TrivA, k: i32) -> Result<S3>;
        fn c_run_abi54(k: i32) -> bool;
        fn c_abi55(a0: f64, a1: SharedPtr<CObj>, k: i32) -> Result<S6>;
        fn c_run_abi55(k: i32) -> bool;
        fn c_abi56(a0: S2, a1: u8, k: i32) -> Result<Box<RObj>>;
        fn c_run_abi56(k: i32) -> bool;
        fn c_abi57(a0: S2, a1: u64, k: i32) -> Result<u8>;
        fn c_run_abi57(k: i32) -> bool;
        fn c_abi58(a0: S2, a1: f32, k: i32) -> Result<f64>;
        fn c_run_abi58(k: i32) -> bool;
        fn c_abi59(a0: S2, a1: f64, k: i32) -> Result<UniquePtr<CObj>>;
        fn c_run_abi59(k: i32) -> bool;
        fn c_abi60(a0: S2, a1: S2, k: i32) -> Result<Vec<u8>>;
        fn c_run_abi60(k: i32) -> bool;
        fn c_abi61(a0: S2, a1: S3, k: i32) -> Result<SharedPtr<CObj>>;
        fn c_run_abi61(k: i32) -> bool;
        fn c_abi62(a0: S2, a1: S6, k: i32) -> Result<TrivA>;
        fn c_run_abi62(k: i32) -> bool;
        fn c_abi63(a0: S2, a1: String, k: i32) -> Result<Eu8>;
        fn c_run_abi63(k: i32) -> bool;
        fn c_abi64(a0: S2, a1: &str, k: i32) -> Result<[u8; 4]>;
        fn c_run_abi64(k: i32) -> bool;
        fn c_abi65(a0: S2, a1: Box<RObj>, k: i32);
        fn c_run_abi65(k: i32) -> bool;
        fn c_abi66(a0: S2, a1: UniquePtr<CObj>, k: i32) -> String;
        fn c_run_abi66(k: i32) -> bool;
        fn c_abi67(a0: S2, a1: &[u16], k: i32) -> S3;
        fn c_run_abi67(k: i32) -> bool;
        fn c_abi68(a0: S2, a1: TrivA, k: i32) -> S6;
        fn c_run_abi68(k: i32) -> bool;
        fn c_abi69(a0: S2, a1: SharedPtr<CObj>, k: i32) -> Box<RObj>;
        fn c_run_abi69(k: i32) -> bool;
        fn c_abi70(a0: S3, a1: u8, k: i32) -> u8;
        fn c_run_abi70(k: i32) -> bool;
        fn c_abi71(a0: S3, a1: u64, k: i32) -> f64;
        fn c_run_abi71(k: i32) -> bool;
        fn c_abi72(a0: S3, a1: f32, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi72(k: i32) -> bool;
        fn c_abi73(a0: S3, a1: f64, k: i32) -> Vec<u8>;
        fn c_run_abi73(k: i32) -> bool;
        fn c_abi74(a0: S3, a1: S2, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi74(k: i32) -> bool;
        fn c_abi75(a0: S3, a1: S3, k: i32) -> TrivA;
        fn c_run_abi75(k: i32) -> bool;
        fn c_abi76(a0: S3, a1: S6, k: i32) -> Eu8;
        fn c_run_abi76(k: i32) -> bool;
        fn c_abi77(a0: S3, a1: String, k: i32) -> [u8; 4];
        fn c_run_abi77(k: i32) -> bool;
        fn c_abi78(a0: S3, a1: &str, k: i32);
        fn c_run_abi78(k: i32) -> bool;
        fn c_abi79(a0: S3, a1: Box<RObj>, k: i32) -> String;
        fn c_run_abi79(k: i32) -> bool;
        fn c_abi80(a0: S3, a1: UniquePtr<CObj>, k: i32) -> S3;
        fn c_run_abi80(k: i32) -> bool;
        fn c_abi81(a0: S3, a1: &[u16], k: i32) -> S6;
        fn c_run_abi81(k: i32) -> bool;
        fn c_abi82(a0: S3, a1: TrivA, k: i32) -> Box<RObj>;
        fn c_run_abi82(k: i32) -> bool;
        fn c_abi83(a0: S3, a1: SharedPtr<CObj>, k: i32) -> u8;
        fn c_run_abi83(k: i32) -> bool;
        fn c_abi84(a0: S6, a1: u8, k: i32) -> f64;
        fn c_run_abi84(k: i32) -> bool;
        fn c_abi85(a0: S6, a1: u64, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi85(k: i32) -> bool;
        fn c_abi86(a0: S6, a1: f32, k: i32) -> Vec<u8>;
        fn c_run_abi86(k: i32) -> bool;
        fn c_abi87(a0: S6, a1: f64, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi87(k: i32) -> bool;
        fn c_abi88(a0: S6, a1: S2, k: i32) -> TrivA;
        fn c_run_abi88(k: i32) -> bool;
        fn c_abi89(a0: S6, a1: S3, k: i32) -> Eu8;
        fn c_run_abi89(k: i32) -> bool;
        fn c_abi90(a0: S6, a1: S6, k: i32) -> [u8; 4];
        fn c_run_abi90(k: i32) -> bool;
        fn c_abi91(a0: S6, a1: String, k: i32);
        fn c_run_abi91(k: i32) -> bool;
        fn c_abi92(a0: S6, a1: &str, k: i32) -> Result<String>;
        fn c_run_abi92(k: i32) -> bool;
        fn c_abi93(a0: S6, a1: Box<RObj>, k: i32) -> Result<S3>;
        fn c_run_abi93(k: i32) -> bool;
        fn c_abi94(a0: S6, a1: UniquePtr<CObj>, k: i32) -> Result<S6>;
        fn c_run_abi94(k: i32) -> bool;
        fn c_abi95(a0: S6, a1: &[u16], k: i32) -> Result<Box<RObj>>;
        fn c_run_abi95(k: i32) -> bool;
        fn c_abi96(a0: S6, a1: TrivA, k: i32) -> Result<u8>;
        fn c_run_abi96(k: i32) -> bool;
        fn c_abi97(a0: S6, a1: SharedPtr<CObj>, k: i32) -> Result<f64>;
        fn c_run_abi97(k: i32) -> bool;
        fn c_abi98(a0: String, a1: u8, k: i32) -> Result<UniquePtr<CObj>>;
        fn c_run_abi98(k: i32) -> bool;
        fn c_abi99(a0: String, a1: u64, k: i32) -> Result<Vec<u8>>;
        fn c_run_abi99(k: i32) -> bool;
        fn c_abi100(a0: String, a1: f32, k: i32) -> Result<SharedPtr<CObj>>;
        fn c_run_abi100(k: i32) -> bool;
        fn c_abi101(a0: String, a1: f64, k: i32) -> Result<TrivA>;
        fn c_run_abi101(k: i32) -> bool;
        fn c_abi102(a0: String, a1: S2, k: i32) -> Result<Eu8>;
        fn c_run_abi102(k: i32) -> bool;
        fn c_abi103(a0: String, a1: S3, k: i32) -> Result<[u8; 4]>;
        fn c_run_abi103(k: i32) -> bool;
        fn c_abi104(a0: String, a1: S6, k: i32);
        fn c_run_abi104(k: i32) -> bool;
        fn c_abi105(a0: String, a1: String, k: i32) -> String;
        fn c_run_abi105(k: i32) -> bool;
        fn c_abi106(a0: String, a1: &str, k: i32) -> S3;
        fn c_run_abi106(k: i32) -> bool;
        fn c_abi107(a0: String, a1: Box<RObj>, k: i32) -> S6;
        fn c_run_abi107(k: i32) -> bool;
        fn c_abi108(a0: String, a1: UniquePtr<CObj>, k: i32) -> Box<RObj>;
        fn c_run_abi108(k: i32) -> bool;
        fn c_abi109(a0: String, a1: &[u16], k: i32) -> u8;
        fn c_run_abi109(k: i32) -> bool;
        fn c_abi110(a0: String, a1: TrivA, k: i32) -> f64;
        fn c_run_abi110(k: i32) -> bool;
        fn c_abi111(a0: String, a1: SharedPtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi111(k: i32) -> bool;
        fn c_abi112(a0: &str, a1: u8, k: i32) -> Vec<u8>;
        fn c_run_abi112(k: i32) -> bool;
        fn c_abi113(a0: &str, a1: u64, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi113(k: i32) -> bool;
        fn c_abi114(a0: &str, a1: f32, k: i32) -> TrivA;
        fn c_run_abi114(k: i32) -> bool;
        fn c_abi115(a0: &str, a1: f64, k: i32) -> Eu8;
        fn c_run_abi115(k: i32) -> bool;
        fn c_abi116(a0: &str, a1: S2, k: i32) -> [u8; 4];
        fn c_run_abi116(k: i32) -> bool;
        fn c_abi117(a0: &str, a1: S3, k: i32);
        fn c_run_abi117(k: i32) -> bool;
        fn c_abi118(a0: &str, a1: S6, k: i32) -> String;
        fn c_run_abi118(k: i32) -> bool;
        fn c_abi119(a0: &str, a1: String, k: i32) -> S3;
        fn c_run_abi119(k: i32) -> bool;
        fn c_abi120(a0: &str, a1: &str, k: i32) -> S6;
        fn c_run_abi120(k: i32) -> bool;
        fn c_abi121(a0: &str, a1: Box<RObj>, k: i32) -> Box<RObj>;
        fn c_run_abi121(k: i32) -> bool;
        fn c_abi122(a0: &str, a1: UniquePtr<CObj>, k: i32) -> u8;
        fn c_run_abi122(k: i32) -> bool;
        fn c_abi123(a0: &str, a1: &[u16], k: i32) -> f64;
        fn c_run_abi123(k: i32) -> bool;
        fn c_abi124(a0: &str, a1: TrivA, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi124(k: i32) -> bool;
        fn c_abi125(a0: &str, a1: SharedPtr<CObj>, k: i32) -> Vec<u8>;
        fn c_run_abi125(k: i32) -> bool;
        fn c_abi126(a0: Box<RObj>, a1: u8, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi126(k: i32) -> bool;
        fn c_abi127(a0: Box<RObj>, a1: u64, k: i32) -> TrivA;
        fn c_run_abi127(k: i32) -> bool;
        fn c_abi128(a0: Box<RObj>, a1: f32, k: i32) -> Eu8;
        fn c_run_abi128(k: i32) -> bool;
        fn c_abi129(a0: Box<RObj>, a1: f64, k: i32) -> [u8; 4];
        fn c_run_abi129(k: i32) -> bool;
        fn c_abi130(a0: Box<RObj>, a1: S2, k: i32);
        fn c_run_abi130(k: i32) -> bool;
        fn c_abi131(a0: Box<RObj>, a1: S3, k: i32) -> Result<String>;
        fn c_run_abi131(k: i32) -> bool;
        fn c_abi132(a0: Box<RObj>, a1: S6, k: i32) -> Result<S3>;
        fn c_run_abi132(k: i32) -> bool;
        fn c_abi133(a0: Box<RObj>, a1: String, k: i32) -> Result<S6>;
        fn c_run_abi133(k: i32) -> bool;
        fn c_abi134(a0: Box<RObj>, a1: &str, k: i32) -> Result<Box<RObj>>;
        fn c_run_abi134(k: i32) -> bool;
        fn c_abi135(a0: Box<RObj>, a1: Box<RObj>, k: i32) -> Result<u8>;
        fn c_run_abi135(k: i32) -> bool;
        fn c_abi136(a0: Box<RObj>, a1: UniquePtr<CObj>, k: i32) -> Result<f64>;
        fn c_run_abi136(k: i32) -> bool;
        fn c_abi137(a0: Box<RObj>, a1: &[u16], k: i32) -> Result<UniquePtr<CObj>>;
        fn c_run_abi137(k: i32) -> bool;
        fn c_abi138(a0: Box<RObj>, a1: TrivA, k: i32) -> Result<Vec<u8>>;
        fn c_run_abi138(k: i32) -> bool;
        fn c_abi139(a0: Box<RObj>, a1: SharedPtr<CObj>, k: i32) -> Result<SharedPtr<CObj>>;
        fn c_run_abi139(k: i32) -> bool;
        fn c_abi140(a0: UniquePtr<CObj>, a1: u8, k: i32) -> Result<TrivA>;
        fn c_run_abi140(k: i32) -> bool;
        fn c_abi141(a0: UniquePtr<CObj>, a1: u64, k: i32) -> Result<Eu8>;
        fn c_run_abi141(k: i32) -> bool;
        fn c_abi142(a0: UniquePtr<CObj>, a1: f32, k: i32) -> Result<[u8; 4]>;
        fn c_run_abi142(k: i32) -> bool;
        fn c_abi143(a0: UniquePtr<CObj>, a1: f64, k: i32);
        fn c_run_abi143(k: i32) -> bool;
        fn c_abi144(a0: UniquePtr<CObj>, a1: S2, k: i32) -> String;
        fn c_run_abi144(k: i32) -> bool;
        fn c_abi145(a0: UniquePtr<CObj>, a1: S3, k: i32) -> S3;
        fn c_run_abi145(k: i32) -> bool;
        fn c_abi146(a0: UniquePtr<CObj>, a1: S6, k: i32) -> S6;
        fn c_run_abi146(k: i32) -> bool;
        fn c_abi147(a0: UniquePtr<CObj>, a1: String, k: i32) -> Box<RObj>;
        fn c_run_abi147(k: i32) -> bool;
        fn c_abi148(a0: UniquePtr<CObj>, a1: &str, k: i32) -> u8;
        fn c_run_abi148(k: i32) -> bool;
        fn c_abi149(a0: UniquePtr<CObj>, a1: Box<RObj>, k: i32) -> f64;
        fn c_run_abi149(k: i32) -> bool;
        fn c_abi150(a0: UniquePtr<CObj>, a1: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi150(k: i32) -> bool;
        fn c_abi151(a0: UniquePtr<CObj>, a1: &[u16], k: i32) -> Vec<u8>;
        fn c_run_abi151(k: i32) -> bool;
        fn c_abi152(a0: UniquePtr<CObj>, a1: TrivA, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi152(k: i32) -> bool;
        fn c_abi153(a0: UniquePtr<CObj>, a1: SharedPtr<CObj>, k: i32) -> TrivA;
        fn c_run_abi153(k: i32) -> bool;
        fn c_abi154(a0: &[u16], a1: u8, k: i32) -> Eu8;
        fn c_run_abi154(k: i32) -> bool;
        fn c_abi155(a0: &[u16], a1: u64, k: i32) -> [u8; 4];
        fn c_run_abi155(k: i32) -> bool;
        fn c_abi156(a0: &[u16], a1: f32, k: i32);
        fn c_run_abi156(k: i32) -> bool;
        fn c_abi157(a0: &[u16], a1: f64, k: i32) -> String;
        fn c_run_abi157(k: i32) -> bool;
        fn c_abi158(a0: &[u16], a1: S2, k: i32) -> S3;
        fn c_run_abi158(k: i32) -> bool;
        fn c_abi159(a0: &[u16], a1: S3, k: i32) -> S6;
        fn c_run_abi159(k: i32) -> bool;
        fn c_abi160(a0: &[u16], a1: S6, k: i32) -> Box<RObj>;
        fn c_run_abi160(k: i32) -> bool;
        fn c_abi161(a0: &[u16], a1: String, k: i32) -> u8;
        fn c_run_abi161(k: i32) -> bool;
        fn c_abi162(a0: &[u16], a1: &str, k: i32) -> f64;
        fn c_run_abi162(k: i32) -> bool;
        fn c_abi163(a0: &[u16], a1: Box<RObj>, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi163(k: i32) -> bool;
        fn c_abi164(a0: &[u16], a1: UniquePtr<CObj>, k: i32) -> Vec<u8>;
        fn c_run_abi164(k: i32) -> bool;
        fn c_abi165(a0: &[u16], a1: &[u16], k: i32) -> SharedPtr<CObj>;
        fn c_run_abi165(k: i32) -> bool;
        fn c_abi166(a0: &[u16], a1: TrivA, k: i32) -> TrivA;
        fn c_run_abi166(k: i32) -> bool;
        fn c_abi167(a0: &[u16], a1: SharedPtr<CObj>, k: i32) -> Eu8;
        fn c_run_abi167(k: i32) -> bool;
        fn c_abi168(a0: TrivA, a1: u8, k: i32) -> [u8; 4];
        fn c_run_abi168(k: i32) -> bool;
        fn c_abi169(a0: TrivA, a1: u64, k: i32);
        fn c_run_abi169(k: i32) -> bool;
        fn c_abi170(a0: TrivA, a1: f32, k: i32) -> Result<String>;
        fn c_run_abi170(k: i32) -> bool;
        fn c_abi171(a0: TrivA, a1: f64, k: i32) -> Result<S3>;
        fn c_run_abi171(k: i32) -> bool;
        fn c_abi172(a0: TrivA, a1: S2, k: i32) -> Result<S6>;
        fn c_run_abi172(k: i32) -> bool;
        fn c_abi173(a0: TrivA, a1: S3, k: i32) -> Result<Box<RObj>>;
        fn c_run_abi173(k: i32) -> bool;
        fn c_abi174(a0: TrivA, a1: S6, k: i32) -> Result<u8>;
        fn c_run_abi174(k: i32) -> bool;
        fn c_abi175(a0: TrivA, a1: String, k: i32) -> Result<f64>;
        fn c_run_abi175(k: i32) -> bool;
        fn c_abi176(a0: TrivA, a1: &str, k: i32) -> Result<UniquePtr<CObj>>;
        fn c_run_abi176(k: i32) -> bool;
        fn c_abi177(a0: TrivA, a1: Box<RObj>, k: i32) -> Result<Vec<u8>>;
        fn c_run_abi177(k: i32) -> bool;
        fn c_abi178(a0: TrivA, a1: UniquePtr<CObj>, k: i32) -> Result<SharedPtr<CObj>>;
        fn c_run_abi178(k: i32) -> bool;
        fn c_abi179(a0: TrivA, a1: &[u16], k: i32) -> Result<TrivA>;
        fn c_run_abi179(k: i32) -> bool;
        fn c_abi180(a0: TrivA, a1: TrivA, k: i32) -> Result<Eu8>;
        fn c_run_abi180(k: i32) -> bool;
        fn c_abi181(a0: TrivA, a1: SharedPtr<CObj>, k: i32) -> Result<[u8; 4]>;
        fn c_run_abi181(k: i32) -> bool;
        fn c_abi182(a0: SharedPtr<CObj>, a1: u8, k: i32);
        fn c_run_abi182(k: i32) -> bool;
        fn c_abi183(a0: SharedPtr<CObj>, a1: u64, k: i32) -> String;
        fn c_run_abi183(k: i32) -> bool;
        fn c_abi184(a0: SharedPtr<CObj>, a1: f32, k: i32) -> S3;
        fn c_run_abi184(k: i32) -> bool;
        fn c_abi185(a0: SharedPtr<CObj>, a1: f64, k: i32) -> S6;
        fn c_run_abi185(k: i32) -> bool;
        fn c_abi186(a0: SharedPtr<CObj>, a1: S2, k: i32) -> Box<RObj>;
        fn c_run_abi186(k: i32) -> bool;
        fn c_abi187(a0: SharedPtr<CObj>, a1: S3, k: i32) -> u8;
        fn c_run_abi187(k: i32) -> bool;
        fn c_abi188(a0: SharedPtr<CObj>, a1: S6, k: i32) -> f64;
        fn c_run_abi188(k: i32) -> bool;
        fn c_abi189(a0: SharedPtr<CObj>, a1: String, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi189(k: i32) -> bool;
        fn c_abi190(a0: SharedPtr<CObj>, a1: &str, k: i32) -> Vec<u8>;
        fn c_run_abi190(k: i32) -> bool;
        fn c_abi191(a0: SharedPtr<CObj>, a1: Box<RObj>, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi191(k: i32) -> bool;
        fn c_abi192(a0: SharedPtr<CObj>, a1: UniquePtr<CObj>, k: i32) -> TrivA;
        fn c_run_abi192(k: i32) -> bool;
        fn c_abi193(a0: SharedPtr<CObj>, a1: &[u16], k: i32) -> Eu8;
        fn c_run_abi193(k: i32) -> bool;
        fn c_abi194(a0: SharedPtr<CObj>, a1: TrivA, k: i32) -> [u8; 4];
        fn c_run_abi194(k: i32) -> bool;
        fn c_abi195(a0: SharedPtr<CObj>, a1: SharedPtr<CObj>, k: i32);
        fn c_run_abi195(k: i32) -> bool;
        fn c_abi196(a0: u8, a1: u64, a2: u8, k: i32) -> String;
        fn c_run_abi196(k: i32) -> bool;
        fn c_abi197(a0: u8, a1: u64, a2: f64, k: i32) -> S3;
        fn c_run_abi197(k: i32) -> bool;
        fn c_abi198(a0: u8, a1: u64, a2: &str, k: i32) -> S6;
        fn c_run_abi198(k: i32) -> bool;
        fn c_abi199(a0: u8, a1: u64, a2: S3, k: i32) -> Box<RObj>;
        fn c_run_abi199(k: i32) -> bool;
        fn c_abi200(a0: u8, a1: f64, a2: u8, k: i32) -> u8;
        fn c_run_abi200(k: i32) -> bool;
        fn c_abi201(a0: u8, a1: f64, a2: f64, k: i32) -> f64;
        fn c_run_abi201(k: i32) -> bool;
        fn c_abi202(a0: u8, a1: f64, a2: &str, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi202(k: i32) -> bool;
        fn c_abi203(a0: u8, a1: f64, a2: S3, k: i32) -> Vec<u8>;
        fn c_run_abi203(k: i32) -> bool;
        fn c_abi204(a0: u8, a1: S3, a2: u8, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi204(k: i32) -> bool;
        fn c_abi205(a0: u8, a1: S3, a2: f64, k: i32) -> TrivA;
        fn c_run_abi205(k: i32) -> bool;
        fn c_abi206(a0: u8, a1: S3, a2: &str, k: i32) -> Eu8;
        fn c_run_abi206(k: i32) -> bool;
        fn c_abi207(a0: u8, a1: S3, a2: S3, k: i32) -> [u8; 4];
        fn c_run_abi207(k: i32) -> bool;
        fn c_abi208(a0: u8, a1: String, a2: u8, k: i32);
        fn c_run_abi208(k: i32) -> bool;
        fn c_abi209(a0: u8, a1: String, a2: f64, k: i32) -> Result<String>;
        fn c_run_abi209(k: i32) -> bool;
        fn c_abi210(a0: u8, a1: String, a2: &str, k: i32) -> Result<S3>;
        fn c_run_abi210(k: i32) -> bool;
        fn c_abi211(a0: u8, a1: String, a2: S3, k: i32) -> Result<S6>;
        fn c_run_abi211(k: i32) -> bool;
        fn c_abi212(a0: u8, a1: S6, a2: u8, k: i32) -> Result<Box<RObj>>;
        fn c_run_abi212(k: i32) -> bool;
        fn c_abi213(a0: u8, a1: S6, a2: f64, k: i32) -> Result<u8>;
        fn c_run_abi213(k: i32) -> bool;
        fn c_abi214(a0: u8, a1: S6, a2: &str, k: i32) -> Result<f64>;
        fn c_run_abi214(k: i32) -> bool;
        fn c_abi215(a0: u8, a1: S6, a2: S3, k: i32) -> Result<UniquePtr<CObj>>;
        fn c_run_abi215(k: i32) -> bool;
        fn c_abi216(a0: f32, a1: u64, a2: u8, k: i32) -> Result<Vec<u8>>;
        fn c_run_abi216(k: i32) -> bool;
        fn c_abi217(a0: f32, a1: u64, a2: f64, k: i32) -> Result<SharedPtr<CObj>>;
        fn c_run_abi217(k: i32) -> bool;
        fn c_abi218(a0: f32, a1: u64, a2: &str, k: i32) -> Result<TrivA>;
        fn c_run_abi218(k: i32) -> bool;
        fn c_abi219(a0: f32, a1: u64, a2: S3, k: i32) -> Result<Eu8>;
        fn c_run_abi219(k: i32) -> bool;
        fn c_abi220(a0: f32, a1: f64, a2: u8, k: i32) -> Result<[u8; 4]>;
        fn c_run_abi220(k: i32) -> bool;
        fn c_abi221(a0: f32, a1: f64, a2: f64, k: i32);
        fn c_run_abi221(k: i32) -> bool;
        fn c_abi222(a0: f32, a1: f64, a2: &str, k: i32) -> String;
        fn c_run_abi222(k: i32) -> bool;
        fn c_abi223(a0: f32, a1: f64, a2: S3, k: i32) -> S3;
        fn c_run_abi223(k: i32) -> bool;
        fn c_abi224(a0: f32, a1: S3, a2: u8, k: i32) -> S6;
        fn c_run_abi224(k: i32) -> bool;
        fn c_abi225(a0: f32, a1: S3, a2: f64, k: i32) -> Box<RObj>;
        fn c_run_abi225(k: i32) -> bool;
        fn c_abi226(a0: f32, a1: S3, a2: &str, k: i32) -> u8;
        fn c_run_abi226(k: i32) -> bool;
        fn c_abi227(a0: f32, a1: S3, a2: S3, k: i32) -> f64;
        fn c_run_abi227(k: i32) -> bool;
        fn c_abi228(a0: f32, a1: String, a2: u8, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi228(k: i32) -> bool;
        fn c_abi229(a0: f32, a1: String, a2: f64, k: i32) -> Vec<u8>;
        fn c_run_abi229(k: i32) -> bool;
        fn c_abi230(a0: f32, a1: String, a2: &str, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi230(k: i32) -> bool;
        fn c_abi231(a0: f32, a1: String, a2: S3, k: i32) -> TrivA;
        fn c_run_abi231(k: i32) -> bool;
        fn c_abi232(a0: f32, a1: S6, a2: u8, k: i32) -> Eu8;
        fn c_run_abi232(k: i32) -> bool;
        fn c_abi233(a0: f32, a1: S6, a2: f64, k: i32) -> [u8; 4];
        fn c_run_abi233(k: i32) -> bool;
        fn c_abi234(a0: f32, a1: S6, a2: &str, k: i32);
        fn c_run_abi234(k: i32) -> bool;
        fn c_abi235(a0: f32, a1: S6, a2: S3, k: i32) -> String;
        fn c_run_abi235(k: i32) -> bool;
        fn c_abi236(a0: S2, a1: u64, a2: u8, k: i32) -> S3;
        fn c_run_abi236(k: i32) -> bool;
        fn c_abi237(a0: S2, a1: u64, a2: f64, k: i32) -> S6;
        fn c_run_abi237(k: i32) -> bool;
        fn c_abi238(a0: S2, a1: u64, a2: &str, k: i32) -> Box<RObj>;
        fn c_run_abi238(k: i32) -> bool;
        fn c_abi239(a0: S2, a1: u64, a2: S3, k: i32) -> u8;
        fn c_run_abi239(k: i32) -> bool;
        fn c_abi240(a0: S2, a1: f64, a2: u8, k: i32) -> f64;
        fn c_run_abi240(k: i32) -> bool;
        fn c_abi241(a0: S2, a1: f64, a2: f64, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi241(k: i32) -> bool;
        fn c_abi242(a0: S2, a1: f64, a2: &str, k: i32) -> Vec<u8>;
        fn c_run_abi242(k: i32) -> bool;
        fn c_abi243(a0: S2, a1: f64, a2: S3, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi243(k: i32) -> bool;
        fn c_abi244(a0: S2, a1: S3, a2: u8, k: i32) -> TrivA;
        fn c_run_abi244(k: i32) -> bool;
        fn c_abi245(a0: S2, a1: S3, a2: f64, k: i32) -> Eu8;
        fn c_run_abi245(k: i32) -> bool;
        fn c_abi246(a0: S2, a1: S3, a2: &str, k: i32) -> [u8; 4];
        fn c_run_abi246(k: i32) -> bool;
        fn c_abi247(a0: S2, a1: S3, a2: S3, k: i32);
        fn c_run_abi247(k: i32) -> bool;
        fn c_abi248(a0: S2, a1: String, a2: u8, k: i32) -> Result<String>;
        fn c_run_abi248(k: i32) -> bool;
        fn c_abi249(a0: S2, a1: String, a2: f64, k: i32) -> Result<S3>;
        fn c_run_abi249(k: i32) -> bool;
        fn c_abi250(a0: S2, a1: String, a2: &str, k: i32) -> Result<S6>;
        fn c_run_abi250(k: i32) -> bool;
        fn c_abi251(a0: S2, a1: String, a2: S3, k: i32) -> Result<Box<RObj>>;
        fn c_run_abi251(k: i32) -> bool;
        fn c_abi252(a0: S2, a1: S6, a2: u8, k: i32) -> Result<u8>;
        fn c_run_abi252(k: i32) -> bool;
        fn c_abi253(a0: S2, a1: S6, a2: f64, k: i32) -> Result<f64>;
        fn c_run_abi253(k: i32) -> bool;
        fn c_abi254(a0: S2, a1: S6, a2: &str, k: i32) -> Result<UniquePtr<CObj>>;
        fn c_run_abi254(k: i32) -> bool;
        fn c_abi255(a0: S2, a1: S6, a2: S3, k: i32) -> Result<Vec<u8>>;
        fn c_run_abi255(k: i32) -> bool;
        fn c_abi256(a0: S6, a1: u64, a2: u8, k: i32) -> Result<SharedPtr<CObj>>;
        fn c_run_abi256(k: i32) -> bool;
        fn c_abi257(a0: S6, a1: u64, a2: f64, k: i32) -> Result<TrivA>;
        fn c_run_abi257(k: i32) -> bool;
        fn c_abi258(a0: S6, a1: u64, a2: &str, k: i32) -> Result<Eu8>;
        fn c_run_abi258(k: i32) -> bool;
        fn c_abi259(a0: S6, a1: u64, a2: S3, k: i32) -> Result<[u8; 4]>;
        fn c_run_abi259(k: i32) -> bool;
        fn c_abi260(a0: S6, a1: f64, a2: u8, k: i32);
        fn c_run_abi260(k: i32) -> bool;
        fn c_abi261(a0: S6, a1: f64, a2: f64, k: i32) -> String;
        fn c_run_abi261(k: i32) -> bool;
        fn c_abi262(a0: S6, a1: f64, a2: &str, k: i32) -> S3;
        fn c_run_abi262(k: i32) -> bool;
        fn c_abi263(a0: S6, a1: f64, a2: S3, k: i32) -> S6;
        fn c_run_abi263(k: i32) -> bool;
        fn c_abi264(a0: S6, a1: S3, a2: u8, k: i32) -> Box<RObj>;
        fn c_run_abi264(k: i32) -> bool;
        fn c_abi265(a0: S6, a1: S3, a2: f64, k: i32) -> u8;
        fn c_run_abi265(k: i32) -> bool;
        fn c_abi266(a0: S6, a1: S3, a2: &str, k: i32) -> f64;
        fn c_run_abi266(k: i32) -> bool;
        fn c_abi267(a0: S6, a1: S3, a2: S3, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi267(k: i32) -> bool;
        fn c_abi268(a0: S6, a1: String, a2: u8, k: i32) -> Vec<u8>;
        fn c_run_abi268(k: i32) -> bool;
        fn c_abi269(a0: S6, a1: String, a2: f64, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi269(k: i32) -> bool;
        fn c_abi270(a0: S6, a1: String, a2: &str, k: i32) -> TrivA;
        fn c_run_abi270(k: i32) -> bool;
        fn c_abi271(a0: S6, a1: String, a2: S3, k: i32) -> Eu8;
        fn c_run_abi271(k: i32) -> bool;
        fn c_abi272(a0: S6, a1: S6, a2: u8, k: i32) -> [u8; 4];
        fn c_run_abi272(k: i32) -> bool;
        fn c_abi273(a0: S6, a1: S6, a2: f64, k: i32);
        fn c_run_abi273(k: i32) -> bool;
        fn c_abi274(a0: S6, a1: S6, a2: &str, k: i32) -> String;
        fn c_run_abi274(k: i32) -> bool;
        fn c_abi275(a0: S6, a1: S6, a2: S3, k: i32) -> S3;
        fn c_run_abi275(k: i32) -> bool;
        fn c_abi276(a0: &str, a1: u64, a2: u8, k: i32) -> S6;
        fn c_run_abi276(k: i32) -> bool;
        fn c_abi277(a0: &str, a1: u64, a2: f64, k: i32) -> Box<RObj>;
        fn c_run_abi277(k: i32) -> bool;
        fn c_abi278(a0: &str, a1: u64, a2: &str, k: i32) -> u8;
        fn c_run_abi278(k: i32) -> bool;
        fn c_abi279(a0: &str, a1: u64, a2: S3, k: i32) -> f64;
        fn c_run_abi279(k: i32) -> bool;
        fn c_abi280(a0: &str, a1: f64, a2: u8, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi280(k: i32) -> bool;
        fn c_abi281(a0: &str, a1: f64, a2: f64, k: i32) -> Vec<u8>;
        fn c_run_abi281(k: i32) -> bool;
        fn c_abi282(a0: &str, a1: f64, a2: &str, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi282(k: i32) -> bool;
        fn c_abi283(a0: &str, a1: f64, a2: S3, k: i32) -> TrivA;
        fn c_run_abi283(k: i32) -> bool;
        fn c_abi284(a0: &str, a1: S3, a2: u8, k: i32) -> Eu8;
        fn c_run_abi284(k: i32) -> bool;
        fn c_abi285(a0: &str, a1: S3, a2: f64, k: i32) -> [u8; 4];
        fn c_run_abi285(k: i32) -> bool;
        fn c_abi286(a0: &str, a1: S3, a2: &str, k: i32);
        fn c_run_abi286(k: i32) -> bool;
        fn c_abi287(a0: &str, a1: S3, a2: S3, k: i32) -> Result<String>;
        fn c_run_abi287(k: i32) -> bool;
        fn c_abi288(a0: &str, a1: String, a2: u8, k: i32) -> Result<S3>;
        fn c_run_abi288(k: i32) -> bool;
        fn c_abi289(a0: &str, a1: String, a2: f64, k: i32) -> Result<S6>;
        fn c_run_abi289(k: i32) -> bool;
        fn c_abi290(a0: &str, a1: String, a2: &str, k: i32) -> Result<Box<RObj>>;
        fn c_run_abi290(k: i32) -> bool;
        fn c_abi291(a0: &str, a1: String, a2: S3, k: i32) -> Result<u8>;
        fn c_run_abi291(k: i32) -> bool;
        fn c_abi292(a0: &str, a1: S6, a2: u8, k: i32) -> Result<f64>;
        fn c_run_abi292(k: i32) -> bool;
        fn c_abi293(a0: &str, a1: S6, a2: f64, k: i32) -> Result<UniquePtr<CObj>>;
        fn c_run_abi293(k: i32) -> bool;
        fn c_abi294(a0: &str, a1: S6, a2: &str, k: i32) -> Result<Vec<u8>>;
        fn c_run_abi294(k: i32) -> bool;
        fn c_abi295(a0: &str, a1: S6, a2: S3, k: i32) -> Result<SharedPtr<CObj>>;
        fn c_run_abi295(k: i32) -> bool;
        fn c_abi296(a0: S3, a1: u64, a2: u8, k: i32) -> Result<TrivA>;
        fn c_run_abi296(k: i32) -> bool;
        fn c_abi297(a0: S3, a1: u64, a2: f64, k: i32) -> Result<Eu8>;
        fn c_run_abi297(k: i32) -> bool;
        fn c_abi298(a0: S3, a1: u64, a2: &str, k: i32) -> Result<[u8; 4]>;
        fn c_run_abi298(k: i32) -> bool;
        fn c_abi299(a0: S3, a1: u64, a2: S3, k: i32);
        fn c_run_abi299(k: i32) -> bool;
        fn c_abi300(a0: S3, a1: f64, a2: u8, k: i32) -> String;
        fn c_run_abi300(k: i32) -> bool;
        fn c_abi301(a0: S3, a1: f64, a2: f64, k: i32) -> S3;
        fn c_run_abi301(k: i32) -> bool;
        fn c_abi302(a0: S3, a1: f64, a2: &str, k: i32) -> S6;
        fn c_run_abi302(k: i32) -> bool;
        fn c_abi303(a0: S3, a1: f64, a2: S3, k: i32) -> Box<RObj>;
        fn c_run_abi303(k: i32) -> bool;
        fn c_abi304(a0: S3, a1: S3, a2: u8, k: i32) -> u8;
        fn c_run_abi304(k: i32) -> bool;
        fn c_abi305(a0: S3, a1: S3, a2: f64, k: i32) -> f64;
        fn c_run_abi305(k: i32) -> bool;
        fn c_abi306(a0: S3, a1: S3, a2: &str, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi306(k: i32) -> bool;
        fn c_abi307(a0: S3, a1: S3, a2: S3, k: i32) -> Vec<u8>;
        fn c_run_abi307(k: i32) -> bool;
        fn c_abi308(a0: S3, a1: String, a2: u8, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi308(k: i32) -> bool;
        fn c_abi309(a0: S3, a1: String, a2: f64, k: i32) -> TrivA;
        fn c_run_abi309(k: i32) -> bool;
        fn c_abi310(a0: S3, a1: String, a2: &str, k: i32) -> Eu8;
        fn c_run_abi310(k: i32) -> bool;
        fn c_abi311(a0: S3, a1: String, a2: S3, k: i32) -> [u8; 4];
        fn c_run_abi311(k: i32) -> bool;
        fn c_abi312(a0: S3, a1: S6, a2: u8, k: i32);
        fn c_run_abi312(k: i32) -> bool;
        fn c_abi313(a0: S3, a1: S6, a2: f64, k: i32) -> String;
        fn c_run_abi313(k: i32) -> bool;
        fn c_abi314(a0: S3, a1: S6, a2: &str, k: i32) -> S3;
        fn c_run_abi314(k: i32) -> bool;
        fn c_abi315(a0: S3, a1: S6, a2: S3, k: i32) -> S6;
        fn c_run_abi315(k: i32) -> bool;
        fn c_abi316(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, a6: S6, a7: String, a8: &str, a9: Box<RObj>, a10: UniquePtr<CObj>, a11: &[u16], a12: bool, a13: Eu8, a14: TrivA, a15: [u8; 4], a16: &S2, a17: SharedPtr<CObj>, a18: WeakPtr<CObj>, a19: Vec<u8>, a20: &RObj, a21: &mut S7, a22: i8, a23: c_char, k: i32) -> Box<RObj>;
        fn c_run_abi316(k: i32) -> bool;
        fn c_abi317(a0: f32, a1: f64, a2: S2, a3: S3, a4: S6, a5: String, a6: &str, a7: Box<RObj>, a8: UniquePtr<CObj>, a9: &[u16], a10: bool, a11: Eu8, a12: TrivA, a13: [u8; 4], a14: &S2, a15: SharedPtr<CObj>, a16: WeakPtr<CObj>, a17: Vec<u8>, a18: &RObj, a19: &mut S7, a20: i8, a21: c_char, a22: u8, a23: u64, k: i32) -> u8;
        fn c_run_abi317(k: i32) -> bool;
        fn c_abi318(a0: S2, a1: S3, a2: S6, a3: String, a4: &str, a5: Box<RObj>, a6: UniquePtr<CObj>, a7: &[u16], a8: bool, a9: Eu8, a10: TrivA, a11: [u8; 4], a12: &S2, a13: SharedPtr<CObj>, a14: WeakPtr<CObj>, a15: Vec<u8>, a16: &RObj, a17: &mut S7, a18: i8, a19: c_char, a20: u8, a21: u64, a22: f32, a23: f64, k: i32) -> f64;
        fn c_run_abi318(k: i32) -> bool;
        fn c_abi319(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], a6: bool, a7: Eu8, a8: TrivA, a9: [u8; 4], a10: &S2, a11: SharedPtr<CObj>, a12: WeakPtr<CObj>, a13: Vec<u8>, a14: &RObj, a15: &mut S7, a16: i8, a17: c_char, a18: u8, a19: u64, a20: f32, a21: f64, a22: S2, a23: S3, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi319(k: i32) -> bool;
        fn c_abi320(a0: &str, a1: Box<RObj>, a2: UniquePtr<CObj>, a3: &[u16], a4: bool, a5: Eu8, a6: TrivA, a7: [u8; 4], a8: &S2, a9: SharedPtr<CObj>, a10: WeakPtr<CObj>, a11: Vec<u8>, a12: &RObj, a13: &mut S7, a14: i8, a15: c_char, a16: u8, a17: u64, a18: f32, a19: f64, a20: S2, a21: S3, a22: S6, a23: String, k: i32) -> Vec<u8>;
        fn c_run_abi320(k: i32) -> bool;
        fn c_abi321(a0: UniquePtr<CObj>, a1: &[u16], a2: bool, a3: Eu8, a4: TrivA, a5: [u8; 4], a6: &S2, a7: SharedPtr<CObj>, a8: WeakPtr<CObj>, a9: Vec<u8>, a10: &RObj, a11: &mut S7, a12: i8, a13: c_char, a14: u8, a15: u64, a16: f32, a17: f64, a18: S2, a19: S3, a20: S6, a21: String, a22: &str, a23: Box<RObj>, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi321(k: i32) -> bool;
        fn c_abi322(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, a6: WeakPtr<CObj>, a7: Vec<u8>, a8: &RObj, a9: &mut S7, a10: i8, a11: c_char, a12: u8, a13: u64, a14: f32, a15: f64, a16: S2, a17: S3, a18: S6, a19: String, a20: &str, a21: Box<RObj>, a22: UniquePtr<CObj>, a23: &[u16], k: i32) -> TrivA;
        fn c_run_abi322(k: i32) -> bool;
        fn c_abi323(a0: TrivA, a1: [u8; 4], a2: &S2, a3: SharedPtr<CObj>, a4: WeakPtr<CObj>, a5: Vec<u8>, a6: &RObj, a7: &mut S7, a8: i8, a9: c_char, a10: u8, a11: u64, a12: f32, a13: f64, a14: S2, a15: S3, a16: S6, a17: String, a18: &str, a19: Box<RObj>, a20: UniquePtr<CObj>, a21: &[u16], a22: bool, a23: Eu8, k: i32) -> Eu8;
        fn c_run_abi323(k: i32) -> bool;
        fn c_abi324(a0: &S2, a1: SharedPtr<CObj>, a2: WeakPtr<CObj>, a3: Vec<u8>, a4: &RObj, a5: &mut S7, a6: i8, a7: c_char, a8: u8, a9: u64, a10: f32, a11: f64, a12: S2, a13: S3, a14: S6, a15: String, a16: &str, a17: Box<RObj>, a18: UniquePtr<CObj>, a19: &[u16], a20: bool, a21: Eu8, a22: TrivA, a23: [u8; 4], k: i32) -> [u8; 4];
        fn c_run_abi324(k: i32) -> bool;
        fn c_abi325(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, a6: u8, a7: u64, a8: f32, a9: f64, a10: S2, a11: S3, a12: S6, a13: String, a14: &str, a15: Box<RObj>, a16: UniquePtr<CObj>, a17: &[u16], a18: bool, a19: Eu8, a20: TrivA, a21: [u8; 4], a22: &S2, a23: SharedPtr<CObj>, k: i32);
        fn c_run_abi325(k: i32) -> bool;
        fn c_abi326(a0: &RObj, a1: &mut S7, a2: i8, a3: c_char, a4: u8, a5: u64, a6: f32, a7: f64, a8: S2, a9: S3, a10: S6, a11: String, a12: &str, a13: Box<RObj>, a14: UniquePtr<CObj>, a15: &[u16], a16: bool, a17: Eu8, a18: TrivA, a19: [u8; 4], a20: &S2, a21: SharedPtr<CObj>, a22: WeakPtr<CObj>, a23: Vec<u8>, k: i32) -> Result<String>;
        fn c_run_abi326(k: i32) -> bool;
        fn c_abi327(a0: i8, a1: c_char, a2: u8, a3: u64, a4: f32, a5: f64, a6: S2, a7: S3, a8: S6, a9: String, a10: &str, a11: Box<RObj>, a12: UniquePtr<CObj>, a13: &[u16], a14: bool, a15: Eu8, a16: TrivA, a17: [u8; 4], a18: &S2, a19: SharedPtr<CObj>, a20: WeakPtr<CObj>, a21: Vec<u8>, a22: &RObj, a23: &mut S7, k: i32) -> Result<S3>;
        fn c_run_abi327(k: i32) -> bool;
        fn c_abi328(a0: u8, a1: u64, a2: f32, a3: f64, k: i32) -> Result<S6>;
        fn c_run_abi328(k: i32) -> bool;
        fn c_abi329(a0: f64, a1: S2, a2: S3, a3: S6, k: i32) -> Result<Box<RObj>>;
        fn c_run_abi329(k: i32) -> bool;
        fn c_abi330(a0: S6, a1: String, a2: &str, a3: Box<RObj>, k: i32) -> Result<u8>;
        fn c_run_abi330(k: i32) -> bool;
        fn c_abi331(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, k: i32) -> Result<f64>;
        fn c_run_abi331(k: i32) -> bool;
        fn c_abi332(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], k: i32) -> Result<UniquePtr<CObj>>;
        fn c_run_abi332(k: i32) -> bool;
        fn c_abi333(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, k: i32) -> Result<Vec<u8>>;
        fn c_run_abi333(k: i32) -> bool;
        fn c_abi334(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, k: i32) -> Result<SharedPtr<CObj>>;
        fn c_run_abi334(k: i32) -> bool;
        fn c_abi335(a0: &mut S7, a1: i8, a2: c_char, a3: u8, k: i32) -> Result<TrivA>;
        fn c_run_abi335(k: i32) -> bool;
        fn c_abi336(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, k: i32) -> Result<Eu8>;
        fn c_run_abi336(k: i32) -> bool;
        fn c_abi337(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, k: i32) -> Result<[u8; 4]>;
        fn c_run_abi337(k: i32) -> bool;
        fn c_abi338(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, k: i32);
        fn c_run_abi338(k: i32) -> bool;
        fn c_abi339(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, k: i32) -> String;
        fn c_run_abi339(k: i32) -> bool;
        fn c_abi340(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, k: i32) -> S3;
        fn c_run_abi340(k: i32) -> bool;
        fn c_abi341(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, k: i32) -> S6;
        fn c_run_abi341(k: i32) -> bool;
        fn c_abi342(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, k: i32) -> Box<RObj>;
        fn c_run_abi342(k: i32) -> bool;
        fn c_abi343(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, k: i32) -> u8;
        fn c_run_abi343(k: i32) -> bool;
        fn c_abi344(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, k: i32) -> f64;
        fn c_run_abi344(k: i32) -> bool;
        fn c_abi345(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, a5: &str, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi345(k: i32) -> bool;
        fn c_abi346(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], k: i32) -> Vec<u8>;
        fn c_run_abi346(k: i32) -> bool;
        fn c_abi347(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, a5: TrivA, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi347(k: i32) -> bool;
        fn c_abi348(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, k: i32) -> TrivA;
        fn c_run_abi348(k: i32) -> bool;
        fn c_abi349(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, a5: &RObj, k: i32) -> Eu8;
        fn c_run_abi349(k: i32) -> bool;
        fn c_abi350(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, k: i32) -> [u8; 4];
        fn c_run_abi350(k: i32) -> bool;
        fn c_abi351(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, a5: f32, k: i32);
        fn c_run_abi351(k: i32) -> bool;
        fn c_abi352(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, a6: S6, k: i32) -> String;
        fn c_run_abi352(k: i32) -> bool;
        fn c_abi353(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, a5: &str, a6: Box<RObj>, k: i32) -> S3;
        fn c_run_abi353(k: i32) -> bool;
        fn c_abi354(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], a6: bool, k: i32) -> S6;
        fn c_run_abi354(k: i32) -> bool;
        fn c_abi355(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, a5: TrivA, a6: [u8; 4], k: i32) -> Box<RObj>;
        fn c_run_abi355(k: i32) -> bool;
        fn c_abi356(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, a6: WeakPtr<CObj>, k: i32) -> u8;
        fn c_run_abi356(k: i32) -> bool;
        fn c_abi357(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, a5: &RObj, a6: &mut S7, k: i32) -> f64;
        fn c_run_abi357(k: i32) -> bool;
        fn c_abi358(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, a6: u8, k: i32) -> UniquePtr<CObj>;
        fn c_run_abi358(k: i32) -> bool;
        fn c_abi359(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, a5: f32, a6: f64, k: i32) -> Vec<u8>;
        fn c_run_abi359(k: i32) -> bool;
        fn c_abi360(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, a6: S6, a7: String, k: i32) -> SharedPtr<CObj>;
        fn c_run_abi360(k: i32) -> bool;
        fn c_abi361(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, a5: &str, a6: Box<RObj>, a7: UniquePtr<CObj>, k: i32) -> TrivA;
        fn c_run_abi361(k: i32) -> bool;
        fn c_abi362(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], a6: bool, a7: Eu8, k: i32) -> Eu8;
        fn c_run_abi362(k: i32) -> bool;
        fn c_abi363(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, a5: TrivA, a6: [u8; 4], a7: &S2, k: i32) -> [u8; 4];
        fn c_run_abi363(k: i32) -> bool;
        fn c_abi364(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, a6: WeakPtr<CObj>, a7: Vec<u8>, k: i32);
        fn c_run_abi364(k: i32) -> bool;
        fn c_abi365(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, a5: &RObj, a6: &mut S7, a7: i8, k: i32) -> Result<String>;
        fn c_run_abi365(k: i32) -> bool;
        fn c_abi366(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, a6: u8, a7: u64, k: i32) -> Result<S3>;
        fn c_run_abi366(k: i32) -> bool;
        fn c_abi367(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, a5: f32, a6: f64, a7: S2, k: i32) -> Result<S6>;
        fn c_run_abi367(k: i32) -> bool;
        fn c_store_CObj(k: i32) -> UniquePtr<CObj>;
    }
    extern "Rust" {
        type RObj;
        fn r_new(k: i32) -> Box<RObj>;
        fn r_tag(self: &RObj) -> i32;
        fn r_set(self: &mut RObj, k: i32);
        fn r_take_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> bool;
        fn r_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj>;
        fn r_try_UniquePtr_CObj(k: i32, fail: bool) -> Result<UniquePtr<CObj>>;
        fn r_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn r_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_UniquePtr_CObj(self: &mut RObj, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn r_take_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> bool;
        fn r_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj>;
        fn r_try_SharedPtr_CObj(k: i32, fail: bool) -> Result<SharedPtr<CObj>>;
        fn r_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn r_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> Result<bool>;
        fn r_m_SharedPtr_CObj(self: &S3, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj>;
        fn r_abi0(a0: u8, a1: u8, k: i32);
        fn r_abi1(a0: u8, a1: u64, k: i32) -> String;
        fn r_abi2(a0: u8, a1: f32, k: i32) -> S3;
        fn r_abi3(a0: u8, a1: f64, k: i32) -> S6;
        fn r_abi4(a0: u8, a1: S2, k: i32) -> Box<RObj>;
        fn r_abi5(a0: u8, a1: S3, k: i32) -> u8;
        fn r_abi6(a0: u8, a1: S6, k: i32) -> f64;
        fn r_abi7(a0: u8, a1: String, k: i32) -> UniquePtr<CObj>;
        fn r_abi8(a0: u8, a1: &str, k: i32) -> Vec<u8>;
        fn r_abi9(a0: u8, a1: Box<RObj>, k: i32) -> SharedPtr<CObj>;
        fn r_abi10(a0: u8, a1: UniquePtr<CObj>, k: i32) -> TrivA;
        fn r_abi11(a0: u8, a1: &[u16], k: i32) -> Eu8;
        fn r_abi12(a0: u8, a1: TrivA, k: i32) -> [u8; 4];
        fn r_abi13(a0: u8, a1: SharedPtr<CObj>, k: i32);
        fn r_abi14(a0: u64, a1: u8, k: i32) -> Result<String>;
        fn r_abi15(a0: u64, a1: u64, k: i32) -> Result<S3>;
        fn r_abi16(a0: u64, a1: f32, k: i32) -> Result<S6>;
        fn r_abi17(a0: u64, a1: f64, k: i32) -> Result<Box<RObj>>;
        fn r_abi18(a0: u64, a1: S2, k: i32) -> Result<u8>;
        fn r_abi19(a0: u64, a1: S3, k: i32) -> Result<f64>;
        fn r_abi20(a0: u64, a1: S6, k: i32) -> Result<UniquePtr<CObj>>;
        fn r_abi21(a0: u64, a1: String, k: i32) -> Result<Vec<u8>>;
        fn r_abi22(a0: u64, a1: &str, k: i32) -> Result<SharedPtr<CObj>>;
        fn r_abi23(a0: u64, a1: Box<RObj>, k: i32) -> Result<TrivA>;
        fn r_abi24(a0: u64, a1: UniquePtr<CObj>, k: i32) -> Result<Eu8>;
        fn r_abi25(a0: u64, a1: &[u16], k: i32) -> Result<[u8; 4]>;
        fn r_abi26(a0: u64, a1: TrivA, k: i32);
        fn r_abi27(a0: u64, a1: SharedPtr<CObj>, k: i32) -> String;
        fn r_abi28(a0: f32, a1: u8, k: i32) -> S3;
        fn r_abi29(a0: f32, a1: u64, k: i32) -> S6;
        fn r_abi30(a0: f32, a1: f32, k: i32) -> Box<RObj>;
        fn r_abi31(a0: f32, a1: f64, k: i32) -> u8;
        fn r_abi32(a0: f32, a1: S2, k: i32) -> f64;
        fn r_abi33(a0: f32, a1: S3, k: i32) -> UniquePtr<CObj>;
        fn r_abi34(a0: f32, a1: S6, k: i32) -> Vec<u8>;
        fn r_abi35(a0: f32, a1: String, k: i32) -> SharedPtr<CObj>;
        fn r_abi36(a0: f32, a1: &str, k: i32) -> TrivA;
        fn r_abi37(a0: f32, a1: Box<RObj>, k: i32) -> Eu8;
        fn r_abi38(a0: f32, a1: UniquePtr<CObj>, k: i32) -> [u8; 4];
        fn r_abi39(a0: f32, a1: &[u16], k: i32);
        fn r_abi40(a0: f32, a1: TrivA, k: i32) -> String;
        fn r_abi41(a0: f32, a1: SharedPtr<CObj>, k: i32) -> S3;
        fn r_abi42(a0: f64, a1: u8, k: i32) -> S6;
        fn r_abi43(a0: f64, a1: u64, k: i32) -> Box<RObj>;
        fn r_abi44(a0: f64, a1: f32, k: i32) -> u8;
        fn r_abi45(a0: f64, a1: f64, k: i32) -> f64;
        fn r_abi46(a0: f64, a1: S2, k: i32) -> UniquePtr<CObj>;
        fn r_abi47(a0: f64, a1: S3, k: i32) -> Vec<u8>;
        fn r_abi48(a0: f64, a1: S6, k: i32) -> SharedPtr<CObj>;
        fn r_abi49(a0: f64, a1: String, k: i32) -> TrivA;
        fn r_abi50(a0: f64, a1: &str, k: i32) -> Eu8;
        fn r_abi51(a0: f64, a1: Box<RObj>, k: i32) -> [u8; 4];
        fn r_abi52(a0: f64, a1: UniquePtr<CObj>, k: i32);
        fn r_abi53(a0: f64, a1: &[u16], k: i32) -> Result<String>;
        fn r_abi54(a0: f64, a1: TrivA, k: i32) -> Result<S3>;
        fn r_abi55(a0: f64, a1: SharedPtr<CObj>, k: i32) -> Result<S6>;
        fn r_abi56(a0: S2, a1: u8, k: i32) -> Result<Box<RObj>>;
        fn r_abi57(a0: S2, a1: u64, k: i32) -> Result<u8>;
        fn r_abi58(a0: S2, a1: f32, k: i32) -> Result<f64>;
        fn r_abi59(a0: S2, a1: f64, k: i32) -> Result<UniquePtr<CObj>>;
        fn r_abi60(a0: S2, a1: S2, k: i32) -> Result<Vec<u8>>;
        fn r_abi61(a0: S2, a1: S3, k: i32) -> Result<SharedPtr<CObj>>;
        fn r_abi62(a0: S2, a1: S6, k: i32) -> Result<TrivA>;
        fn r_abi63(a0: S2, a1: String, k: i32) -> Result<Eu8>;
        fn r_abi64(a0: S2, a1: &str, k: i32) -> Result<[u8; 4]>;
        fn r_abi65(a0: S2, a1: Box<RObj>, k: i32);
        fn r_abi66(a0: S2, a1: UniquePtr<CObj>, k: i32) -> String;
        fn r_abi67(a0: S2, a1: &[u16], k: i32) -> S3;
        fn r_abi68(a0: S2, a1: TrivA, k: i32) -> S6;
        fn r_abi69(a0: S2, a1: SharedPtr<CObj>, k: i32) -> Box<RObj>;
        fn r_abi70(a0: S3, a1: u8, k: i32) -> u8;
        fn r_abi71(a0: S3, a1: u64, k: i32) -> f64;
        fn r_abi72(a0: S3, a1: f32, k: i32) -> UniquePtr<CObj>;
        fn r_abi73(a0: S3, a1: f64, k: i32) -> Vec<u8>;
        fn r_abi74(a0: S3, a1: S2, k: i32) -> SharedPtr<CObj>;
        fn r_abi75(a0: S3, a1: S3, k: i32) -> TrivA;
        fn r_abi76(a0: S3, a1: S6, k: i32) -> Eu8;
        fn r_abi77(a0: S3, a1: String, k: i32) -> [u8; 4];
        fn r_abi78(a0: S3, a1: &str, k: i32);
        fn r_abi79(a0: S3, a1: Box<RObj>, k: i32) -> String;
        fn r_abi80(a0: S3, a1: UniquePtr<CObj>, k: i32) -> S3;
        fn r_abi81(a0: S3, a1: &[u16], k: i32) -> S6;
        fn r_abi82(a0: S3, a1: TrivA, k: i32) -> Box<RObj>;
        fn r_abi83(a0: S3, a1: SharedPtr<CObj>, k: i32) -> u8;
        fn r_abi84(a0: S6, a1: u8, k: i32) -> f64;
        fn r_abi85(a0: S6, a1: u64, k: i32) -> UniquePtr<CObj>;
        fn r_abi86(a0: S6, a1: f32, k: i32) -> Vec<u8>;
        fn r_abi87(a0: S6, a1: f64, k: i32) -> SharedPtr<CObj>;
        fn r_abi88(a0: S6, a1: S2, k: i32) -> TrivA;
        fn r_abi89(a0: S6, a1: S3, k: i32) -> Eu8;
        fn r_abi90(a0: S6, a1: S6, k: i32) -> [u8; 4];
        fn r_abi91(a0: S6, a1: String, k: i32);
        fn r_abi92(a0: S6, a1: &str, k: i32) -> Result<String>;
        fn r_abi93(a0: S6, a1: Box<RObj>, k: i32) -> Result<S3>;
        fn r_abi94(a0: S6, a1: UniquePtr<CObj>, k: i32) -> Result<S6>;
        fn r_abi95(a0: S6, a1: &[u16], k: i32) -> Result<Box<RObj>>;
        fn r_abi96(a0: S6, a1: TrivA, k: i32) -> Result<u8>;
        fn r_abi97(a0: S6, a1: SharedPtr<CObj>, k: i32) -> Result<f64>;
        fn r_abi98(a0: String, a1: u8, k: i32) -> Result<UniquePtr<CObj>>;
        fn r_abi99(a0: String, a1: u64, k: i32) -> Result<Vec<u8>>;
        fn r_abi100(a0: String, a1: f32, k: i32) -> Result<SharedPtr<CObj>>;
        fn r_abi101(a0: String, a1: f64, k: i32) -> Result<TrivA>;
        fn r_abi102(a0: String, a1: S2, k: i32) -> Result<Eu8>;
        fn r_abi103(a0: String, a1: S3, k: i32) -> Result<[u8; 4]>;
        fn r_abi104(a0: String, a1: S6, k: i32);
        fn r_abi105(a0: String, a1: String, k: i32) -> String;
        fn r_abi106(a0: String, a1: &str, k: i32) -> S3;
        fn r_abi107(a0: String, a1: Box<RObj>, k: i32) -> S6;
        fn r_abi108(a0: String, a1: UniquePtr<CObj>, k: i32) -> Box<RObj>;
        fn r_abi109(a0: String, a1: &[u16], k: i32) -> u8;
        fn r_abi110(a0: String, a1: TrivA, k: i32) -> f64;
        fn r_abi111(a0: String, a1: SharedPtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn r_abi112(a0: &str, a1: u8, k: i32) -> Vec<u8>;
        fn r_abi113(a0: &str, a1: u64, k: i32) -> SharedPtr<CObj>;
        fn r_abi114(a0: &str, a1: f32, k: i32) -> TrivA;
        fn r_abi115(a0: &str, a1: f64, k: i32) -> Eu8;
        fn r_abi116(a0: &str, a1: S2, k: i32) -> [u8; 4];
        fn r_abi117(a0: &str, a1: S3, k: i32);
        fn r_abi118(a0: &str, a1: S6, k: i32) -> String;
        fn r_abi119(a0: &str, a1: String, k: i32) -> S3;
        fn r_abi120(a0: &str, a1: &str, k: i32) -> S6;
        fn r_abi121(a0: &str, a1: Box<RObj>, k: i32) -> Box<RObj>;
        fn r_abi122(a0: &str, a1: UniquePtr<CObj>, k: i32) -> u8;
        fn r_abi123(a0: &str, a1: &[u16], k: i32) -> f64;
        fn r_abi124(a0: &str, a1: TrivA, k: i32) -> UniquePtr<CObj>;
        fn r_abi125(a0: &str, a1: SharedPtr<CObj>, k: i32) -> Vec<u8>;
        fn r_abi126(a0: Box<RObj>, a1: u8, k: i32) -> SharedPtr<CObj>;
        fn r_abi127(a0: Box<RObj>, a1: u64, k: i32) -> TrivA;
        fn r_abi128(a0: Box<RObj>, a1: f32, k: i32) -> Eu8;
        fn r_abi129(a0: Box<RObj>, a1: f64, k: i32) -> [u8; 4];
        fn r_abi130(a0: Box<RObj>, a1: S2, k: i32);
        fn r_abi131(a0: Box<RObj>, a1: S3, k: i32) -> Result<String>;
        fn r_abi132(a0: Box<RObj>, a1: S6, k: i32) -> Result<S3>;
        fn r_abi133(a0: Box<RObj>, a1: String, k: i32) -> Result<S6>;
        fn r_abi134(a0: Box<RObj>, a1: &str, k: i32) -> Result<Box<RObj>>;
        fn r_abi135(a0: Box<RObj>, a1: Box<RObj>, k: i32) -> Result<u8>;
        fn r_abi136(a0: Box<RObj>, a1: UniquePtr<CObj>, k: i32) -> Result<f64>;
        fn r_abi137(a0: Box<RObj>, a1: &[u16], k: i32) -> Result<UniquePtr<CObj>>;
        fn r_abi138(a0: Box<RObj>, a1: TrivA, k: i32) -> Result<Vec<u8>>;
        fn r_abi139(a0: Box<RObj>, a1: SharedPtr<CObj>, k: i32) -> Result<SharedPtr<CObj>>;
        fn r_abi140(a0: UniquePtr<CObj>, a1: u8, k: i32) -> Result<TrivA>;
        fn r_abi141(a0: UniquePtr<CObj>, a1: u64, k: i32) -> Result<Eu8>;
        fn r_abi142(a0: UniquePtr<CObj>, a1: f32, k: i32) -> Result<[u8; 4]>;
        fn r_abi143(a0: UniquePtr<CObj>, a1: f64, k: i32);
        fn r_abi144(a0: UniquePtr<CObj>, a1: S2, k: i32) -> String;
        fn r_abi145(a0: UniquePtr<CObj>, a1: S3, k: i32) -> S3;
        fn r_abi146(a0: UniquePtr<CObj>, a1: S6, k: i32) -> S6;
        fn r_abi147(a0: UniquePtr<CObj>, a1: String, k: i32) -> Box<RObj>;
        fn r_abi148(a0: UniquePtr<CObj>, a1: &str, k: i32) -> u8;
        fn r_abi149(a0: UniquePtr<CObj>, a1: Box<RObj>, k: i32) -> f64;
        fn r_abi150(a0: UniquePtr<CObj>, a1: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj>;
        fn r_abi151(a0: UniquePtr<CObj>, a1: &[u16], k: i32) -> Vec<u8>;
        fn r_abi152(a0: UniquePtr<CObj>, a1: TrivA, k: i32) -> SharedPtr<CObj>;
        fn r_abi153(a0: UniquePtr<CObj>, a1: SharedPtr<CObj>, k: i32) -> TrivA;
        fn r_abi154(a0: &[u16], a1: u8, k: i32) -> Eu8;
        fn r_abi155(a0: &[u16], a1: u64, k: i32) -> [u8; 4];
        fn r_abi156(a0: &[u16], a1: f32, k: i32);
        fn r_abi157(a0: &[u16], a1: f64, k: i32) -> String;
        fn r_abi158(a0: &[u16], a1: S2, k: i32) -> S3;
        fn r_abi159(a0: &[u16], a1: S3, k: i32) -> S6;
        fn r_abi160(a0: &[u16], a1: S6, k: i32) -> Box<RObj>;
        fn r_abi161(a0: &[u16], a1: String, k: i32) -> u8;
        fn r_abi162(a0: &[u16], a1: &str, k: i32) -> f64;
        fn r_abi163(a0: &[u16], a1: Box<RObj>, k: i32) -> UniquePtr<CObj>;
        fn r_abi164(a0: &[u16], a1: UniquePtr<CObj>, k: i32) -> Vec<u8>;
        fn r_abi165(a0: &[u16], a1: &[u16], k: i32) -> SharedPtr<CObj>;
        fn r_abi166(a0: &[u16], a1: TrivA, k: i32) -> TrivA;
        fn r_abi167(a0: &[u16], a1: SharedPtr<CObj>, k: i32) -> Eu8;
        fn r_abi168(a0: TrivA, a1: u8, k: i32) -> [u8; 4];
        fn r_abi169(a0: TrivA, a1: u64, k: i32);
        fn r_abi170(a0: TrivA, a1: f32, k: i32) -> Result<String>;
        fn r_abi171(a0: TrivA, a1: f64, k: i32) -> Result<S3>;
        fn r_abi172(a0: TrivA, a1: S2, k: i32) -> Result<S6>;
        fn r_abi173(a0: TrivA, a1: S3, k: i32) -> Result<Box<RObj>>;
        fn r_abi174(a0: TrivA, a1: S6, k: i32) -> Result<u8>;
        fn r_abi175(a0: TrivA, a1: String, k: i32) -> Result<f64>;
        fn r_abi176(a0: TrivA, a1: &str, k: i32) -> Result<UniquePtr<CObj>>;
        fn r_abi177(a0: TrivA, a1: Box<RObj>, k: i32) -> Result<Vec<u8>>;
        fn r_abi178(a0: TrivA, a1: UniquePtr<CObj>, k: i32) -> Result<SharedPtr<CObj>>;
        fn r_abi179(a0: TrivA, a1: &[u16], k: i32) -> Result<TrivA>;
        fn r_abi180(a0: TrivA, a1: TrivA, k: i32) -> Result<Eu8>;
        fn r_abi181(a0: TrivA, a1: SharedPtr<CObj>, k: i32) -> Result<[u8; 4]>;
        fn r_abi182(a0: SharedPtr<CObj>, a1: u8, k: i32);
        fn r_abi183(a0: SharedPtr<CObj>, a1: u64, k: i32) -> String;
        fn r_abi184(a0: SharedPtr<CObj>, a1: f32, k: i32) -> S3;
        fn r_abi185(a0: SharedPtr<CObj>, a1: f64, k: i32) -> S6;
        fn r_abi186(a0: SharedPtr<CObj>, a1: S2, k: i32) -> Box<RObj>;
        fn r_abi187(a0: SharedPtr<CObj>, a1: S3, k: i32) -> u8;
        fn r_abi188(a0: SharedPtr<CObj>, a1: S6, k: i32) -> f64;
        fn r_abi189(a0: SharedPtr<CObj>, a1: String, k: i32) -> UniquePtr<CObj>;
        fn r_abi190(a0: SharedPtr<CObj>, a1: &str, k: i32) -> Vec<u8>;
        fn r_abi191(a0: SharedPtr<CObj>, a1: Box<RObj>, k: i32) -> SharedPtr<CObj>;
        fn r_abi192(a0: SharedPtr<CObj>, a1: UniquePtr<CObj>, k: i32) -> TrivA;
        fn r_abi193(a0: SharedPtr<CObj>, a1: &[u16], k: i32) -> Eu8;
        fn r_abi194(a0: SharedPtr<CObj>, a1: TrivA, k: i32) -> [u8; 4];
        fn r_abi195(a0: SharedPtr<CObj>, a1: SharedPtr<CObj>, k: i32);
        fn r_abi196(a0: u8, a1: u64, a2: u8, k: i32) -> String;
        fn r_abi197(a0: u8, a1: u64, a2: f64, k: i32) -> S3;
        fn r_abi198(a0: u8, a1: u64, a2: &str, k: i32) -> S6;
        fn r_abi199(a0: u8, a1: u64, a2: S3, k: i32) -> Box<RObj>;
        fn r_abi200(a0: u8, a1: f64, a2: u8, k: i32) -> u8;
        fn r_abi201(a0: u8, a1: f64, a2: f64, k: i32) -> f64;
        fn r_abi202(a0: u8, a1: f64, a2: &str, k: i32) -> UniquePtr<CObj>;
        fn r_abi203(a0: u8, a1: f64, a2: S3, k: i32) -> Vec<u8>;
        fn r_abi204(a0: u8, a1: S3, a2: u8, k: i32) -> SharedPtr<CObj>;
        fn r_abi205(a0: u8, a1: S3, a2: f64, k: i32) -> TrivA;
        fn r_abi206(a0: u8, a1: S3, a2: &str, k: i32) -> Eu8;
        fn r_abi207(a0: u8, a1: S3, a2: S3, k: i32) -> [u8; 4];
        fn r_abi208(a0: u8, a1: String, a2: u8, k: i32);
        fn r_abi209(a0: u8, a1: String, a2: f64, k: i32) -> Result<String>;
        fn r_abi210(a0: u8, a1: String, a2: &str, k: i32) -> Result<S3>;
        fn r_abi211(a0: u8, a1: String, a2: S3, k: i32) -> Result<S6>;
        fn r_abi212(a0: u8, a1: S6, a2: u8, k: i32) -> Result<Box<RObj>>;
        fn r_abi213(a0: u8, a1: S6, a2: f64, k: i32) -> Result<u8>;
        fn r_abi214(a0: u8, a1: S6, a2: &str, k: i32) -> Result<f64>;
        fn r_abi215(a0: u8, a1: S6, a2: S3, k: i32) -> Result<UniquePtr<CObj>>;
        fn r_abi216(a0: f32, a1: u64, a2: u8, k: i32) -> Result<Vec<u8>>;
        fn r_abi217(a0: f32, a1: u64, a2: f64, k: i32) -> Result<SharedPtr<CObj>>;
        fn r_abi218(a0: f32, a1: u64, a2: &str, k: i32) -> Result<TrivA>;
        fn r_abi219(a0: f32, a1: u64, a2: S3, k: i32) -> Result<Eu8>;
        fn r_abi220(a0: f32, a1: f64, a2: u8, k: i32) -> Result<[u8; 4]>;
        fn r_abi221(a0: f32, a1: f64, a2: f64, k: i32);
        fn r_abi222(a0: f32, a1: f64, a2: &str, k: i32) -> String;
        fn r_abi223(a0: f32, a1: f64, a2: S3, k: i32) -> S3;
        fn r_abi224(a0: f32, a1: S3, a2: u8, k: i32) -> S6;
        fn r_abi225(a0: f32, a1: S3, a2: f64, k: i32) -> Box<RObj>;
        fn r_abi226(a0: f32, a1: S3, a2: &str, k: i32) -> u8;
        fn r_abi227(a0: f32, a1: S3, a2: S3, k: i32) -> f64;
        fn r_abi228(a0: f32, a1: String, a2: u8, k: i32) -> UniquePtr<CObj>;
        fn r_abi229(a0: f32, a1: String, a2: f64, k: i32) -> Vec<u8>;
        fn r_abi230(a0: f32, a1: String, a2: &str, k: i32) -> SharedPtr<CObj>;
        fn r_abi231(a0: f32, a1: String, a2: S3, k: i32) -> TrivA;
        fn r_abi232(a0: f32, a1: S6, a2: u8, k: i32) -> Eu8;
        fn r_abi233(a0: f32, a1: S6, a2: f64, k: i32) -> [u8; 4];
        fn r_abi234(a0: f32, a1: S6, a2: &str, k: i32);
        fn r_abi235(a0: f32, a1: S6, a2: S3, k: i32) -> String;
        fn r_abi236(a0: S2, a1: u64, a2: u8, k: i32) -> S3;
        fn r_abi237(a0: S2, a1: u64, a2: f64, k: i32) -> S6;
        fn r_abi238(a0: S2, a1: u64, a2: &str, k: i32) -> Box<RObj>;
        fn r_abi239(a0: S2, a1: u64, a2: S3, k: i32) -> u8;
        fn r_abi240(a0: S2, a1: f64, a2: u8, k: i32) -> f64;
        fn r_abi241(a0: S2, a1: f64, a2: f64, k: i32) -> UniquePtr<CObj>;
        fn r_abi242(a0: S2, a1: f64, a2: &str, k: i32) -> Vec<u8>;
        fn r_abi243(a0: S2, a1: f64, a2: S3, k: i32) -> SharedPtr<CObj>;
        fn r_abi244(a0: S2, a1: S3, a2: u8, k: i32) -> TrivA;
        fn r_abi245(a0: S2, a1: S3, a2: f64, k: i32) -> Eu8;
        fn r_abi246(a0: S2, a1: S3, a2: &str, k: i32) -> [u8; 4];
        fn r_abi247(a0: S2, a1: S3, a2: S3, k: i32);
        fn r_abi248(a0: S2, a1: String, a2: u8, k: i32) -> Result<String>;
        fn r_abi249(a0: S2, a1: String, a2: f64, k: i32) -> Result<S3>;
        fn r_abi250(a0: S2, a1: String, a2: &str, k: i32) -> Result<S6>;
        fn r_abi251(a0: S2, a1: String, a2: S3, k: i32) -> Result<Box<RObj>>;
        fn r_abi252(a0: S2, a1: S6, a2: u8, k: i32) -> Result<u8>;
        fn r_abi253(a0: S2, a1: S6, a2: f64, k: i32) -> Result<f64>;
        fn r_abi254(a0: S2, a1: S6, a2: &str, k: i32) -> Result<UniquePtr<CObj>>;
        fn r_abi255(a0: S2, a1: S6, a2: S3, k: i32) -> Result<Vec<u8>>;
        fn r_abi256(a0: S6, a1: u64, a2: u8, k: i32) -> Result<SharedPtr<CObj>>;
        fn r_abi257(a0: S6, a1: u64, a2: f64, k: i32) -> Result<TrivA>;
        fn r_abi258(a0: S6, a1: u64, a2: &str, k: i32) -> Result<Eu8>;
        fn r_abi259(a0: S6, a1: u64, a2: S3, k: i32) -> Result<[u8; 4]>;
        fn r_abi260(a0: S6, a1: f64, a2: u8, k: i32);
        fn r_abi261(a0: S6, a1: f64, a2: f64, k: i32) -> String;
        fn r_abi262(a0: S6, a1: f64, a2: &str, k: i32) -> S3;
        fn r_abi263(a0: S6, a1: f64, a2: S3, k: i32) -> S6;
        fn r_abi264(a0: S6, a1: S3, a2: u8, k: i32) -> Box<RObj>;
        fn r_abi265(a0: S6, a1: S3, a2: f64, k: i32) -> u8;
        fn r_abi266(a0: S6, a1: S3, a2: &str, k: i32) -> f64;
        fn r_abi267(a0: S6, a1: S3, a2: S3, k: i32) -> UniquePtr<CObj>;
        fn r_abi268(a0: S6, a1: String, a2: u8, k: i32) -> Vec<u8>;
        fn r_abi269(a0: S6, a1: String, a2: f64, k: i32) -> SharedPtr<CObj>;
        fn r_abi270(a0: S6, a1: String, a2: &str, k: i32) -> TrivA;
        fn r_abi271(a0: S6, a1: String, a2: S3, k: i32) -> Eu8;
        fn r_abi272(a0: S6, a1: S6, a2: u8, k: i32) -> [u8; 4];
        fn r_abi273(a0: S6, a1: S6, a2: f64, k: i32);
        fn r_abi274(a0: S6, a1: S6, a2: &str, k: i32) -> String;
        fn r_abi275(a0: S6, a1: S6, a2: S3, k: i32) -> S3;
        fn r_abi276(a0: &str, a1: u64, a2: u8, k: i32) -> S6;
        fn r_abi277(a0: &str, a1: u64, a2: f64, k: i32) -> Box<RObj>;
        fn r_abi278(a0: &str, a1: u64, a2: &str, k: i32) -> u8;
        fn r_abi279(a0: &str, a1: u64, a2: S3, k: i32) -> f64;
        fn r_abi280(a0: &str, a1: f64, a2: u8, k: i32) -> UniquePtr<CObj>;
        fn r_abi281(a0: &str, a1: f64, a2: f64, k: i32) -> Vec<u8>;
        fn r_abi282(a0: &str, a1: f64, a2: &str, k: i32) -> SharedPtr<CObj>;
        fn r_abi283(a0: &str, a1: f64, a2: S3, k: i32) -> TrivA;
        fn r_abi284(a0: &str, a1: S3, a2: u8, k: i32) -> Eu8;
        fn r_abi285(a0: &str, a1: S3, a2: f64, k: i32) -> [u8; 4];
        fn r_abi286(a0: &str, a1: S3, a2: &str, k: i32);
        fn r_abi287(a0: &str, a1: S3, a2: S3, k: i32) -> Result<String>;
        fn r_abi288(a0: &str, a1: String, a2: u8, k: i32) -> Result<S3>;
        fn r_abi289(a0: &str, a1: String, a2: f64, k: i32) -> Result<S6>;
        fn r_abi290(a0: &str, a1: String, a2: &str, k: i32) -> Result<Box<RObj>>;
        fn r_abi291(a0: &str, a1: String, a2: S3, k: i32) -> Result<u8>;
        fn r_abi292(a0: &str, a1: S6, a2: u8, k: i32) -> Result<f64>;
        fn r_abi293(a0: &str, a1: S6, a2: f64, k: i32) -> Result<UniquePtr<CObj>>;
        fn r_abi294(a0: &str, a1: S6, a2: &str, k: i32) -> Result<Vec<u8>>;
        fn r_abi295(a0: &str, a1: S6, a2: S3, k: i32) -> Result<SharedPtr<CObj>>;
        fn r_abi296(a0: S3, a1: u64, a2: u8, k: i32) -> Result<TrivA>;
        fn r_abi297(a0: S3, a1: u64, a2: f64, k: i32) -> Result<Eu8>;
        fn r_abi298(a0: S3, a1: u64, a2: &str, k: i32) -> Result<[u8; 4]>;
        fn r_abi299(a0: S3, a1: u64, a2: S3, k: i32);
        fn r_abi300(a0: S3, a1: f64, a2: u8, k: i32) -> String;
        fn r_abi301(a0: S3, a1: f64, a2: f64, k: i32) -> S3;
        fn r_abi302(a0: S3, a1: f64, a2: &str, k: i32) -> S6;
        fn r_abi303(a0: S3, a1: f64, a2: S3, k: i32) -> Box<RObj>;
        fn r_abi304(a0: S3, a1: S3, a2: u8, k: i32) -> u8;
        fn r_abi305(a0: S3, a1: S3, a2: f64, k: i32) -> f64;
        fn r_abi306(a0: S3, a1: S3, a2: &str, k: i32) -> UniquePtr<CObj>;
        fn r_abi307(a0: S3, a1: S3, a2: S3, k: i32) -> Vec<u8>;
        fn r_abi308(a0: S3, a1: String, a2: u8, k: i32) -> SharedPtr<CObj>;
        fn r_abi309(a0: S3, a1: String, a2: f64, k: i32) -> TrivA;
        fn r_abi310(a0: S3, a1: String, a2: &str, k: i32) -> Eu8;
        fn r_abi311(a0: S3, a1: String, a2: S3, k: i32) -> [u8; 4];
        fn r_abi312(a0: S3, a1: S6, a2: u8, k: i32);
        fn r_abi313(a0: S3, a1: S6, a2: f64, k: i32) -> String;
        fn r_abi314(a0: S3, a1: S6, a2: &str, k: i32) -> S3;
        fn r_abi315(a0: S3, a1: S6, a2: S3, k: i32) -> S6;
        fn r_abi316(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, a6: S6, a7: String, a8: &str, a9: Box<RObj>, a10: UniquePtr<CObj>, a11: &[u16], a12: bool, a13: Eu8, a14: TrivA, a15: [u8; 4], a16: &S2, a17: SharedPtr<CObj>, a18: WeakPtr<CObj>, a19: Vec<u8>, a20: &RObj, a21: &mut S7, a22: i8, a23: c_char, k: i32) -> Box<RObj>;
        fn r_abi317(a0: f32, a1: f64, a2: S2, a3: S3, a4: S6, a5: String, a6: &str, a7: Box<RObj>, a8: UniquePtr<CObj>, a9: &[u16], a10: bool, a11: Eu8, a12: TrivA, a13: [u8; 4], a14: &S2, a15: SharedPtr<CObj>, a16: WeakPtr<CObj>, a17: Vec<u8>, a18: &RObj, a19: &mut S7, a20: i8, a21: c_char, a22: u8, a23: u64, k: i32) -> u8;
        fn r_abi318(a0: S2, a1: S3, a2: S6, a3: String, a4: &str, a5: Box<RObj>, a6: UniquePtr<CObj>, a7: &[u16], a8: bool, a9: Eu8, a10: TrivA, a11: [u8; 4], a12: &S2, a13: SharedPtr<CObj>, a14: WeakPtr<CObj>, a15: Vec<u8>, a16: &RObj, a17: &mut S7, a18: i8, a19: c_char, a20: u8, a21: u64, a22: f32, a23: f64, k: i32) -> f64;
        fn r_abi319(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], a6: bool, a7: Eu8, a8: TrivA, a9: [u8; 4], a10: &S2, a11: SharedPtr<CObj>, a12: WeakPtr<CObj>, a13: Vec<u8>, a14: &RObj, a15: &mut S7, a16: i8, a17: c_char, a18: u8, a19: u64, a20: f32, a21: f64, a22: S2, a23: S3, k: i32) -> UniquePtr<CObj>;
        fn r_abi320(a0: &str, a1: Box<RObj>, a2: UniquePtr<CObj>, a3: &[u16], a4: bool, a5: Eu8, a6: TrivA, a7: [u8; 4], a8: &S2, a9: SharedPtr<CObj>, a10: WeakPtr<CObj>, a11: Vec<u8>, a12: &RObj, a13: &mut S7, a14: i8, a15: c_char, a16: u8, a17: u64, a18: f32, a19: f64, a20: S2, a21: S3, a22: S6, a23: String, k: i32) -> Vec<u8>;
        fn r_abi321(a0: UniquePtr<CObj>, a1: &[u16], a2: bool, a3: Eu8, a4: TrivA, a5: [u8; 4], a6: &S2, a7: SharedPtr<CObj>, a8: WeakPtr<CObj>, a9: Vec<u8>, a10: &RObj, a11: &mut S7, a12: i8, a13: c_char, a14: u8, a15: u64, a16: f32, a17: f64, a18: S2, a19: S3, a20: S6, a21: String, a22: &str, a23: Box<RObj>, k: i32) -> SharedPtr<CObj>;
        fn r_abi322(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, a6: WeakPtr<CObj>, a7: Vec<u8>, a8: &RObj, a9: &mut S7, a10: i8, a11: c_char, a12: u8, a13: u64, a14: f32, a15: f64, a16: S2, a17: S3, a18: S6, a19: String, a20: &str, a21: Box<RObj>, a22: UniquePtr<CObj>, a23: &[u16], k: i32) -> TrivA;
        fn r_abi323(a0: TrivA, a1: [u8; 4], a2: &S2, a3: SharedPtr<CObj>, a4: WeakPtr<CObj>, a5: Vec<u8>, a6: &RObj, a7: &mut S7, a8: i8, a9: c_char, a10: u8, a11: u64, a12: f32, a13: f64, a14: S2, a15: S3, a16: S6, a17: String, a18: &str, a19: Box<RObj>, a20: UniquePtr<CObj>, a21: &[u16], a22: bool, a23: Eu8, k: i32) -> Eu8;
        fn r_abi324(a0: &S2, a1: SharedPtr<CObj>, a2: WeakPtr<CObj>, a3: Vec<u8>, a4: &RObj, a5: &mut S7, a6: i8, a7: c_char, a8: u8, a9: u64, a10: f32, a11: f64, a12: S2, a13: S3, a14: S6, a15: String, a16: &str, a17: Box<RObj>, a18: UniquePtr<CObj>, a19: &[u16], a20: bool, a21: Eu8, a22: TrivA, a23: [u8; 4], k: i32) -> [u8; 4];
        fn r_abi325(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, a6: u8, a7: u64, a8: f32, a9: f64, a10: S2, a11: S3, a12: S6, a13: String, a14: &str, a15: Box<RObj>, a16: UniquePtr<CObj>, a17: &[u16], a18: bool, a19: Eu8, a20: TrivA, a21: [u8; 4], a22: &S2, a23: SharedPtr<CObj>, k: i32);
        fn r_abi326(a0: &RObj, a1: &mut S7, a2: i8, a3: c_char, a4: u8, a5: u64, a6: f32, a7: f64, a8: S2, a9: S3, a10: S6, a11: String, a12: &str, a13: Box<RObj>, a14: UniquePtr<CObj>, a15: &[u16], a16: bool, a17: Eu8, a18: TrivA, a19: [u8; 4], a20: &S2, a21: SharedPtr<CObj>, a22: WeakPtr<CObj>, a23: Vec<u8>, k: i32) -> Result<String>;
        fn r_abi327(a0: i8, a1: c_char, a2: u8, a3: u64, a4: f32, a5: f64, a6: S2, a7: S3, a8: S6, a9: String, a10: &str, a11: Box<RObj>, a12: UniquePtr<CObj>, a13: &[u16], a14: bool, a15: Eu8, a16: TrivA, a17: [u8; 4], a18: &S2, a19: SharedPtr<CObj>, a20: WeakPtr<CObj>, a21: Vec<u8>, a22: &RObj, a23: &mut S7, k: i32) -> Result<S3>;
        fn r_abi328(a0: u8, a1: u64, a2: f32, a3: f64, k: i32) -> Result<S6>;
        fn r_abi329(a0: f64, a1: S2, a2: S3, a3: S6, k: i32) -> Result<Box<RObj>>;
        fn r_abi330(a0: S6, a1: String, a2: &str, a3: Box<RObj>, k: i32) -> Result<u8>;
        fn r_abi331(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, k: i32) -> Result<f64>;
        fn r_abi332(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], k: i32) -> Result<UniquePtr<CObj>>;
        fn r_abi333(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, k: i32) -> Result<Vec<u8>>;
        fn r_abi334(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, k: i32) -> Result<SharedPtr<CObj>>;
        fn r_abi335(a0: &mut S7, a1: i8, a2: c_char, a3: u8, k: i32) -> Result<TrivA>;
        fn r_abi336(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, k: i32) -> Result<Eu8>;
        fn r_abi337(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, k: i32) -> Result<[u8; 4]>;
        fn r_abi338(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, k: i32);
        fn r_abi339(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, k: i32) -> String;
        fn r_abi340(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, k: i32) -> S3;
        fn r_abi341(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, k: i32) -> S6;
        fn r_abi342(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, k: i32) -> Box<RObj>;
        fn r_abi343(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, k: i32) -> u8;
        fn r_abi344(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, k: i32) -> f64;
        fn r_abi345(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, a5: &str, k: i32) -> UniquePtr<CObj>;
        fn r_abi346(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], k: i32) -> Vec<u8>;
        fn r_abi347(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, a5: TrivA, k: i32) -> SharedPtr<CObj>;
        fn r_abi348(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, k: i32) -> TrivA;
        fn r_abi349(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, a5: &RObj, k: i32) -> Eu8;
        fn r_abi350(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, k: i32) -> [u8; 4];
        fn r_abi351(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, a5: f32, k: i32);
        fn r_abi352(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, a6: S6, k: i32) -> String;
        fn r_abi353(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, a5: &str, a6: Box<RObj>, k: i32) -> S3;
        fn r_abi354(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], a6: bool, k: i32) -> S6;
        fn r_abi355(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, a5: TrivA, a6: [u8; 4], k: i32) -> Box<RObj>;
        fn r_abi356(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, a6: WeakPtr<CObj>, k: i32) -> u8;
        fn r_abi357(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, a5: &RObj, a6: &mut S7, k: i32) -> f64;
        fn r_abi358(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, a6: u8, k: i32) -> UniquePtr<CObj>;
        fn r_abi359(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, a5: f32, a6: f64, k: i32) -> Vec<u8>;
        fn r_abi360(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, a6: S6, a7: String, k: i32) -> SharedPtr<CObj>;
        fn r_abi361(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, a5: &str, a6: Box<RObj>, a7: UniquePtr<CObj>, k: i32) -> TrivA;
        fn r_abi362(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], a6: bool, a7: Eu8, k: i32) -> Eu8;
        fn r_abi363(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, a5: TrivA, a6: [u8; 4], a7: &S2, k: i32) -> [u8; 4];
        fn r_abi364(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, a6: WeakPtr<CObj>, a7: Vec<u8>, k: i32);
        fn r_abi365(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, a5: &RObj, a6: &mut S7, a7: i8, k: i32) -> Result<String>;
        fn r_abi366(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, a6: u8, a7: u64, k: i32) -> Result<S3>;
        fn r_abi367(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, a5: f32, a6: f64, a7: S2, k: i32) -> Result<S6>;
    }
}
#[repr(C)] pub struct TrivA { pub f0: i32 }
unsafe impl cxx::ExternType for TrivA { type Id = cxx::type_id!("c09d::TrivA"); type Kind = cxx::kind::Trivial; }
fn mk_f32(k: i32) -> f32 { f32::from_bits([0x80000000, 0x7f800000, 0x3fc00000, 0x7fc00001][k as usize]) }
fn ck_f32(v: &f32, k: i32) -> bool { v.to_bits() == mk_f32(k).to_bits() }
fn ad_f32(v: &f32) -> usize { 0 }
fn mk_S3(k: i32) -> S3 { S3 { f0: mk_f32((k + 0) & 3), f1: mk_f32((k + 1) & 3) } }
fn ck_S3(v: &S3, k: i32) -> bool { ck_f32(&v.f0, (k + 0) & 3) && ck_f32(&v.f1, (k + 1) & 3) }
fn ad_S3(v: &S3) -> usize { 0 }
fn mk_u8(k: i32) -> u8 { [0, 1, 128, 255][k as usize] }
fn ck_u8(v: &u8, k: i32) -> bool { *v == mk_u8(k) }
fn ad_u8(v: &u8) -> usize { 0 }
fn mk_u64(k: i32) -> u64 { [0, 1, 9223372036854775808, 18446744073709551615][k as usize] }
fn ck_u64(v: &u64, k: i32) -> bool { *v == mk_u64(k) }
fn ad_u64(v: &u64) -> usize { 0 }
fn mk_String(k: i32) -> String { TXT[k as usize].to_owned() }
fn ck_String(v: &String, k: i32) -> bool { v == TXT[k as usize] }
fn ad_String(v: &String) -> usize { 0 }
fn mk_f64(k: i32) -> f64 { f64::from_bits([0x8000000000000000, 0xfff0000000000000, 0x3ff8000000000000, 0x7ff8000000000123][k as usize]) }
fn ck_f64(v: &f64, k: i32) -> bool { v.to_bits() == mk_f64(k).to_bits() }
fn ad_f64(v: &f64) -> usize { 0 }
fn mk_u32(k: i32) -> u32 { [0, 1, 2147483648, 4294967295][k as usize] }
fn ck_u32(v: &u32, k: i32) -> bool { *v == mk_u32(k) }
fn ad_u32(v: &u32) -> usize { 0 }
fn mk_S6(k: i32) -> S6 { S6 { f0: mk_u64((k + 0) & 3), f1: mk_u32((k + 1) & 3), f2: mk_u64((k + 2) & 3) } }
fn ck_S6(v: &S6, k: i32) -> bool { ck_u64(&v.f0, (k + 0) & 3) && ck_u32(&v.f1, (k + 1) & 3) && ck_u64(&v.f2, (k + 2) & 3) }
fn ad_S6(v: &S6) -> usize { 0 }
fn mk_S2(k: i32) -> S2 { S2 { f0: mk_u8((k + 0) & 3), f1: mk_u8((k + 1) & 3) } }
fn ck_S2(v: &S2, k: i32) -> bool { ck_u8(&v.f0, (k + 0) & 3) && ck_u8(&v.f1, (k + 1) & 3) }
fn ad_S2(v: &S2) -> usize { 0 }
fn mk_RObj(k: i32) -> RObj { RObj::new(k) }
fn ck_RObj(v: &RObj, k: i32) -> bool { v.r_tag() == k && v.pad == TXT[k as usize] }
fn ad_RObj(v: &RObj) -> usize { 0 }
fn mk_Box_RObj(k: i32) -> Box<RObj> { Box::new(mk_RObj(k)) }
fn ck_Box_RObj(v: &Box<RObj>, k: i32) -> bool { ck_RObj(v, k) }
fn ad_Box_RObj(v: &Box<RObj>) -> usize { 0 }
fn ck_CObj(v: &CObj, k: i32) -> bool { v.c_tag() == k }
fn ad_CObj(v: &CObj) -> usize { 0 }
fn mk_UniquePtr_CObj(k: i32) -> UniquePtr<CObj> { ffi::c_make_UniquePtr_CObj(k) }
fn ck_UniquePtr_CObj(v: &UniquePtr<CObj>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CObj(v, k) } }
fn ad_UniquePtr_CObj(v: &UniquePtr<CObj>) -> usize { 0 }
fn mk_str(k: i32) -> &'static str { TXT[k as usize] }
fn ck_str(v: &&str, k: i32) -> bool { *v == TXT[k as usize] }
fn ad_str(v: &&str) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_Vec_u8(k: i32) -> Vec<u8> { (0..k).map(|i| mk_u8((k + i) & 3)).collect() }
fn ck_Vec_u8(v: &Vec<u8>, k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_Vec_u8(v: &Vec<u8>) -> usize { 0 }
fn mk_SharedPtr_CObj(k: i32) -> SharedPtr<CObj> { ffi::c_make_SharedPtr_CObj(k) }
fn ck_SharedPtr_CObj(v: &SharedPtr<CObj>, k: i32) -> bool { match v.as_ref() { None => k == 3, Some(v) => k != 3 && ck_CObj(v, k) } }
fn ad_SharedPtr_CObj(v: &SharedPtr<CObj>) -> usize { 0 }
fn mk_i32(k: i32) -> i32 { [0, 1, -2147483648, 2147483647][k as usize] }
fn ck_i32(v: &i32, k: i32) -> bool { *v == mk_i32(k) }
fn ad_i32(v: &i32) -> usize { 0 }
fn mk_TrivA(k: i32) -> TrivA { TrivA { f0: mk_i32((k + 0) & 3) } }
fn ck_TrivA(v: &TrivA, k: i32) -> bool { ck_i32(&v.f0, (k + 0) & 3) }
fn ad_TrivA(v: &TrivA) -> usize { 0 }
fn mk_u16(k: i32) -> u16 { [0, 1, 32768, 65535][k as usize] }
fn ck_u16(v: &u16, k: i32) -> bool { *v == mk_u16(k) }
fn ad_u16(v: &u16) -> usize { 0 }
fn mk_sl_u16(k: i32) -> &'static [u16] { &rs_sl_u16(k)[..k as usize] }
fn ck_sl_u16(v: &&[u16], k: i32) -> bool { v.len() == k as usize && v.iter().enumerate().all(|(i, v)| ck_u16(v, (k + i as i32) & 3)) }
fn ad_sl_u16(v: &&[u16]) -> usize { if v.is_empty() { 0 } else { v.as_ptr() as usize } }
fn mk_Eu8(k: i32) -> Eu8 { [Eu8::V0, Eu8::V1, Eu8::V2, Eu8::V3][k as usize] }
fn ck_Eu8(v: &Eu8, k: i32) -> bool { *v == mk_Eu8(k) && v.repr == [0, 1, 128, 255][k as usize] }
fn ad_Eu8(v: &Eu8) -> usize { 0 }
fn mk_arr4_u8(k: i32) -> [u8; 4] { std::array::from_fn(|i| mk_u8((k + i as i32) & 3)) }
fn ck_arr4_u8(v: &[u8; 4], k: i32) -> bool { v.iter().enumerate().all(|(i, v)| ck_u8(v, (k + i as i32) & 3)) }
fn ad_arr4_u8(v: &[u8; 4]) -> usize { 0 }
fn mk_bool(k: i32) -> bool { k & 1 == 1 }
fn ck_bool(v: &bool, k: i32) -> bool { *v == (k & 1 == 1) }
fn ad_bool(v: &bool) -> usize { 0 }
fn mk_ref_S2(k: i32) -> &'static S2 { &*rs_S2(k) }
fn ck_ref_S2(v: &&S2, k: i32) -> bool { ck_S2(*v, k) }
fn ad_ref_S2(v: &&S2) -> usize { *v as *const _ as *const u8 as usize }
fn mk_WeakPtr_CObj(k: i32) -> WeakPtr<CObj> { { static mut S: [Option<SharedPtr<CObj>>; 4] = [None, None, None, None]; let s = mk_SharedPtr_CObj(k); let w = s.downgrade(); unsafe { (&mut *(&raw mut S))[k as usize] = Some(s); } w } }
fn ck_WeakPtr_CObj(v: &WeakPtr<CObj>, k: i32) -> bool { match v.upgrade().as_ref() { None => k == 3, Some(v) => k != 3 && ck_CObj(v, k) } }
fn ad_WeakPtr_CObj(v: &WeakPtr<CObj>) -> usize { 0 }
fn mk_ref_RObj(k: i32) -> &'static RObj { &*rs_RObj(k) }
fn ck_ref_RObj(v: &&RObj, k: i32) -> bool { ck_RObj(*v, k) }
fn ad_ref_RObj(v: &&RObj) -> usize { *v as *const _ as *const u8 as usize }
fn mk_S7(k: i32) -> S7 { S7 { f0: mk_String((k + 0) & 3) } }
fn ck_S7(v: &S7, k: i32) -> bool { ck_String(&v.f0, (k + 0) & 3) }
fn ad_S7(v: &S7) -> usize { 0 }
fn mk_mut_S7(k: i32) -> &'static mut S7 { rs_S7(k) }
fn ck_mut_S7(v: &&mut S7, k: i32) -> bool { ck_S7(&**v, k) }
fn ad_mut_S7(v: &&mut S7) -> usize { &**v as *const _ as *const u8 as usize }
fn mk_i8(k: i32) -> i8 { [0, 1, -128, 127][k as usize] }
fn ck_i8(v: &i8, k: i32) -> bool { *v == mk_i8(k) }
fn ad_i8(v: &i8) -> usize { 0 }
fn mk_c_char(k: i32) -> c_char { [0u8, b'a', 0x80, 0xff][k as usize] as c_char }
fn ck_c_char(v: &c_char, k: i32) -> bool { *v == mk_c_char(k) }
fn ad_c_char(v: &c_char) -> usize { 0 }
static mut ST_S2: [Option<S2>; 4] = [None, None, None, None];
fn rs_S2(k: i32) -> &'static mut S2 { unsafe { ST_S2[k as usize] = Some(mk_S2(k)); ST_S2[k as usize].as_mut().unwrap() } }
fn rp_S2(k: i32) -> &'static S2 { unsafe { &*ST_S2[k as usize].as_ref().unwrap() } }
static mut ST_RObj: [Option<RObj>; 4] = [None, None, None, None];
fn rs_RObj(k: i32) -> &'static mut RObj { unsafe { ST_RObj[k as usize] = Some(mk_RObj(k)); ST_RObj[k as usize].as_mut().unwrap() } }
fn rp_RObj(k: i32) -> &'static RObj { unsafe { &*ST_RObj[k as usize].as_ref().unwrap() } }
static mut ST_S7: [Option<S7>; 4] = [None, None, None, None];
fn rs_S7(k: i32) -> &'static mut S7 { unsafe { ST_S7[k as usize] = Some(mk_S7(k)); ST_S7[k as usize].as_mut().unwrap() } }
fn rp_S7(k: i32) -> &'static S7 { unsafe { &*ST_S7[k as usize].as_ref().unwrap() } }
static mut SL_u16: [Option<Vec<u16>>; 4] = [None, None, None, None];
fn rs_sl_u16(k: i32) -> &'static mut Vec<u16> { unsafe { SL_u16[k as usize] = Some((0..4).map(|i| mk_u16((k + i) & 3)).collect()); SL_u16[k as usize].as_mut().unwrap() } }
fn rp_sl_u16(k: i32) -> &'static mut Vec<u16> { unsafe { SL_u16[k as usize].as_mut().unwrap() } }
fn r_take_UniquePtr_CObj(mut x: UniquePtr<CObj>, k: i32) -> bool { let a = ad_UniquePtr_CObj(&x); let ok = ck_UniquePtr_CObj(&x, k);  note(a); ok }
fn r_make_UniquePtr_CObj(k: i32) -> UniquePtr<CObj> { let x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(&x)); x }
fn r_try_UniquePtr_CObj(k: i32, fail: bool) -> R<UniquePtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(&x)); Ok(x) }
fn r_echo_UniquePtr_CObj(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_UniquePtr_CObj(&x, k) { ad_UniquePtr_CObj(&x) } else { 1 }); x }
fn r_mix_UniquePtr_CObj(a: u8, x: UniquePtr<CObj>, b: f64, k: i32, y: UniquePtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_UniquePtr_CObj(&x, k) && b == -1.5 && ck_UniquePtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl RObj { fn r_m_UniquePtr_CObj(&mut self, x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_RObj(self, 2) && ck_UniquePtr_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_UniquePtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_UniquePtr_CObj(k); let a = ad_UniquePtr_CObj(&x); ensure!(ffi::c_take_UniquePtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_UniquePtr_CObj(k); ensure!(ck_UniquePtr_CObj(&x, k) && addr() == ad_UniquePtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_UniquePtr_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_UniquePtr_CObj(&x, k) && addr() == ad_UniquePtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_UniquePtr_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_UniquePtr_CObj(k); let a = ad_UniquePtr_CObj(&x); let y = ffi::c_echo_UniquePtr_CObj(x, k); ensure!(addr() == a && ad_UniquePtr_CObj(&y) == a && ck_UniquePtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_UniquePtr_CObj(200, mk_UniquePtr_CObj(k), -1.5, k, mk_UniquePtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_UniquePtr_CObj(k); let y = o.c_m_UniquePtr_CObj(x, k); ensure!(addr() == 0 && ck_UniquePtr_CObj(&y, k), "method"); }
  7 => { fn f(x: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { note(if ck_UniquePtr_CObj(&x, k) { ad_UniquePtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_UniquePtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_UniquePtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_take_SharedPtr_CObj(mut x: SharedPtr<CObj>, k: i32) -> bool { let a = ad_SharedPtr_CObj(&x); let ok = ck_SharedPtr_CObj(&x, k);  note(a); ok }
fn r_make_SharedPtr_CObj(k: i32) -> SharedPtr<CObj> { let x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(&x)); x }
fn r_try_SharedPtr_CObj(k: i32, fail: bool) -> R<SharedPtr<CObj>> { if fail { return Err(TXT[k as usize].split('\0').next().unwrap().to_owned()); } let x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(&x)); Ok(x) }
fn r_echo_SharedPtr_CObj(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_SharedPtr_CObj(&x, k) { ad_SharedPtr_CObj(&x) } else { 1 }); x }
fn r_mix_SharedPtr_CObj(a: u8, x: SharedPtr<CObj>, b: f64, k: i32, y: SharedPtr<CObj>, c: u16) -> R<bool> { Ok(a == 200 && ck_SharedPtr_CObj(&x, k) && b == -1.5 && ck_SharedPtr_CObj(&y, (k + 1) & 3) && c == 60000) }
impl S3 { fn r_m_SharedPtr_CObj(&self, x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_S3(self, 2) && ck_SharedPtr_CObj(&x, k) { 0 } else { 1 }); x } }
unsafe fn run_SharedPtr_CObj(pos: usize, k: i32) -> R<()> { let mut Z = 0u8; match pos {
  0 => { let x = mk_SharedPtr_CObj(k); let a = ad_SharedPtr_CObj(&x); ensure!(ffi::c_take_SharedPtr_CObj(x, k), "argument Rust to C++"); ensure!(addr() == a, "identity");  }
  1 => { let x = ffi::c_make_SharedPtr_CObj(k); ensure!(ck_SharedPtr_CObj(&x, k) && addr() == ad_SharedPtr_CObj(&x), "return C++ to Rust"); }
  2 => { let x = ffi::c_try_SharedPtr_CObj(k, false).map_err(|e| e.to_string())?; ensure!(ck_SharedPtr_CObj(&x, k) && addr() == ad_SharedPtr_CObj(&x), "Ok return C++ to Rust"); }
  3 => { match ffi::c_try_SharedPtr_CObj(k, true) { Ok(_) => return Err("exception lost".into()), Err(e) => ensure!(e.what() == TXT[k as usize].split('\0').next().unwrap(), "message {:?}", e.what()) } }
  4 => { let x = mk_SharedPtr_CObj(k); let a = ad_SharedPtr_CObj(&x); let y = ffi::c_echo_SharedPtr_CObj(x, k); ensure!(addr() == a && ad_SharedPtr_CObj(&y) == a && ck_SharedPtr_CObj(&y, k), "echo through C++"); }
  5 => { ensure!(ffi::c_mix_SharedPtr_CObj(200, mk_SharedPtr_CObj(k), -1.5, k, mk_SharedPtr_CObj((k + 1) & 3), 60000).map_err(|e| e.to_string())?, "mixed arguments Rust to C++"); }
  6 => { let mut s = ffi::c_store_CObj(2); let o = s.pin_mut(); let x = mk_SharedPtr_CObj(k); let y = o.c_m_SharedPtr_CObj(x, k); ensure!(addr() == 0 && ck_SharedPtr_CObj(&y, k), "method"); }
  7 => { fn f(x: SharedPtr<CObj>, k: i32) -> SharedPtr<CObj> { note(if ck_SharedPtr_CObj(&x, k) { ad_SharedPtr_CObj(&x) } else { 1 }); x } ensure!(ffi::c_cb_SharedPtr_CObj(f, k) && addr() != 1, "function pointer"); }
  p => { let x = ffi::c_run_SharedPtr_CObj(p as i32 - 8, k); ensure!(x == 0, "C++ caller: code {}", x); }
 } Ok(()) }
fn r_abi0(a0: u8, a1: u8, k: i32) { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi0(k: i32) -> R<()> { let x = ffi::c_abi0(mk_u8((k + 0) & 3), mk_u8((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi0(k), "C++ to Rust"); Ok(()) }
fn r_abi1(a0: u8, a1: u64, k: i32) -> String { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi1(k: i32) -> R<()> { let x = ffi::c_abi1(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi1(k), "C++ to Rust"); Ok(()) }
fn r_abi2(a0: u8, a1: f32, k: i32) -> S3 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi2(k: i32) -> R<()> { let x = ffi::c_abi2(mk_u8((k + 0) & 3), mk_f32((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi2(k), "C++ to Rust"); Ok(()) }
fn r_abi3(a0: u8, a1: f64, k: i32) -> S6 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi3(k: i32) -> R<()> { let x = ffi::c_abi3(mk_u8((k + 0) & 3), mk_f64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi3(k), "C++ to Rust"); Ok(()) }
fn r_abi4(a0: u8, a1: S2, k: i32) -> Box<RObj> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi4(k: i32) -> R<()> { let x = ffi::c_abi4(mk_u8((k + 0) & 3), mk_S2((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi4(k), "C++ to Rust"); Ok(()) }
fn r_abi5(a0: u8, a1: S3, k: i32) -> u8 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi5(k: i32) -> R<()> { let x = ffi::c_abi5(mk_u8((k + 0) & 3), mk_S3((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi5(k), "C++ to Rust"); Ok(()) }
fn r_abi6(a0: u8, a1: S6, k: i32) -> f64 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi6(k: i32) -> R<()> { let x = ffi::c_abi6(mk_u8((k + 0) & 3), mk_S6((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi6(k), "C++ to Rust"); Ok(()) }
fn r_abi7(a0: u8, a1: String, k: i32) -> UniquePtr<CObj> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi7(k: i32) -> R<()> { let x = ffi::c_abi7(mk_u8((k + 0) & 3), mk_String((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi7(k), "C++ to Rust"); Ok(()) }
fn r_abi8(a0: u8, a1: &str, k: i32) -> Vec<u8> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi8(k: i32) -> R<()> { let x = ffi::c_abi8(mk_u8((k + 0) & 3), mk_str((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi8(k), "C++ to Rust"); Ok(()) }
fn r_abi9(a0: u8, a1: Box<RObj>, k: i32) -> SharedPtr<CObj> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi9(k: i32) -> R<()> { let x = ffi::c_abi9(mk_u8((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi9(k), "C++ to Rust"); Ok(()) }
fn r_abi10(a0: u8, a1: UniquePtr<CObj>, k: i32) -> TrivA { let ok = ck_u8(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi10(k: i32) -> R<()> { let x = ffi::c_abi10(mk_u8((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi10(k), "C++ to Rust"); Ok(()) }
fn r_abi11(a0: u8, a1: &[u16], k: i32) -> Eu8 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi11(k: i32) -> R<()> { let x = ffi::c_abi11(mk_u8((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi11(k), "C++ to Rust"); Ok(()) }
fn r_abi12(a0: u8, a1: TrivA, k: i32) -> [u8; 4] { let ok = ck_u8(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi12(k: i32) -> R<()> { let x = ffi::c_abi12(mk_u8((k + 0) & 3), mk_TrivA((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi12(k), "C++ to Rust"); Ok(()) }
fn r_abi13(a0: u8, a1: SharedPtr<CObj>, k: i32) { let ok = ck_u8(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi13(k: i32) -> R<()> { let x = ffi::c_abi13(mk_u8((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi13(k), "C++ to Rust"); Ok(()) }
fn r_abi14(a0: u64, a1: u8, k: i32) -> R<String> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi14(k: i32) -> R<()> { let x = ffi::c_abi14(mk_u64((k + 0) & 3), mk_u8((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi14(k), "C++ to Rust"); Ok(()) }
fn r_abi15(a0: u64, a1: u64, k: i32) -> R<S3> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi15(k: i32) -> R<()> { let x = ffi::c_abi15(mk_u64((k + 0) & 3), mk_u64((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi15(k), "C++ to Rust"); Ok(()) }
fn r_abi16(a0: u64, a1: f32, k: i32) -> R<S6> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi16(k: i32) -> R<()> { let x = ffi::c_abi16(mk_u64((k + 0) & 3), mk_f32((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi16(k), "C++ to Rust"); Ok(()) }
fn r_abi17(a0: u64, a1: f64, k: i32) -> R<Box<RObj>> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi17(k: i32) -> R<()> { let x = ffi::c_abi17(mk_u64((k + 0) & 3), mk_f64((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi17(k), "C++ to Rust"); Ok(()) }
fn r_abi18(a0: u64, a1: S2, k: i32) -> R<u8> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi18(k: i32) -> R<()> { let x = ffi::c_abi18(mk_u64((k + 0) & 3), mk_S2((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi18(k), "C++ to Rust"); Ok(()) }
fn r_abi19(a0: u64, a1: S3, k: i32) -> R<f64> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi19(k: i32) -> R<()> { let x = ffi::c_abi19(mk_u64((k + 0) & 3), mk_S3((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi19(k), "C++ to Rust"); Ok(()) }
fn r_abi20(a0: u64, a1: S6, k: i32) -> R<UniquePtr<CObj>> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi20(k: i32) -> R<()> { let x = ffi::c_abi20(mk_u64((k + 0) & 3), mk_S6((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi20(k), "C++ to Rust"); Ok(()) }
fn r_abi21(a0: u64, a1: String, k: i32) -> R<Vec<u8>> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi21(k: i32) -> R<()> { let x = ffi::c_abi21(mk_u64((k + 0) & 3), mk_String((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi21(k), "C++ to Rust"); Ok(()) }
fn r_abi22(a0: u64, a1: &str, k: i32) -> R<SharedPtr<CObj>> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi22(k: i32) -> R<()> { let x = ffi::c_abi22(mk_u64((k + 0) & 3), mk_str((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi22(k), "C++ to Rust"); Ok(()) }
fn r_abi23(a0: u64, a1: Box<RObj>, k: i32) -> R<TrivA> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi23(k: i32) -> R<()> { let x = ffi::c_abi23(mk_u64((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi23(k), "C++ to Rust"); Ok(()) }
fn r_abi24(a0: u64, a1: UniquePtr<CObj>, k: i32) -> R<Eu8> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi24(k: i32) -> R<()> { let x = ffi::c_abi24(mk_u64((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi24(k), "C++ to Rust"); Ok(()) }
fn r_abi25(a0: u64, a1: &[u16], k: i32) -> R<[u8; 4]> { let ok = ck_u64(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi25(k: i32) -> R<()> { let x = ffi::c_abi25(mk_u64((k + 0) & 3), mk_sl_u16((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi25(k), "C++ to Rust"); Ok(()) }
fn r_abi26(a0: u64, a1: TrivA, k: i32) { let ok = ck_u64(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi26(k: i32) -> R<()> { let x = ffi::c_abi26(mk_u64((k + 0) & 3), mk_TrivA((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi26(k), "C++ to Rust"); Ok(()) }
fn r_abi27(a0: u64, a1: SharedPtr<CObj>, k: i32) -> String { let ok = ck_u64(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi27(k: i32) -> R<()> { let x = ffi::c_abi27(mk_u64((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi27(k), "C++ to Rust"); Ok(()) }
fn r_abi28(a0: f32, a1: u8, k: i32) -> S3 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi28(k: i32) -> R<()> { let x = ffi::c_abi28(mk_f32((k + 0) & 3), mk_u8((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi28(k), "C++ to Rust"); Ok(()) }
fn r_abi29(a0: f32, a1: u64, k: i32) -> S6 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi29(k: i32) -> R<()> { let x = ffi::c_abi29(mk_f32((k + 0) & 3), mk_u64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi29(k), "C++ to Rust"); Ok(()) }
fn r_abi30(a0: f32, a1: f32, k: i32) -> Box<RObj> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi30(k: i32) -> R<()> { let x = ffi::c_abi30(mk_f32((k + 0) & 3), mk_f32((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi30(k), "C++ to Rust"); Ok(()) }
fn r_abi31(a0: f32, a1: f64, k: i32) -> u8 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi31(k: i32) -> R<()> { let x = ffi::c_abi31(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi31(k), "C++ to Rust"); Ok(()) }
fn r_abi32(a0: f32, a1: S2, k: i32) -> f64 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi32(k: i32) -> R<()> { let x = ffi::c_abi32(mk_f32((k + 0) & 3), mk_S2((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi32(k), "C++ to Rust"); Ok(()) }
fn r_abi33(a0: f32, a1: S3, k: i32) -> UniquePtr<CObj> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi33(k: i32) -> R<()> { let x = ffi::c_abi33(mk_f32((k + 0) & 3), mk_S3((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi33(k), "C++ to Rust"); Ok(()) }
fn r_abi34(a0: f32, a1: S6, k: i32) -> Vec<u8> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi34(k: i32) -> R<()> { let x = ffi::c_abi34(mk_f32((k + 0) & 3), mk_S6((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi34(k), "C++ to Rust"); Ok(()) }
fn r_abi35(a0: f32, a1: String, k: i32) -> SharedPtr<CObj> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi35(k: i32) -> R<()> { let x = ffi::c_abi35(mk_f32((k + 0) & 3), mk_String((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi35(k), "C++ to Rust"); Ok(()) }
fn r_abi36(a0: f32, a1: &str, k: i32) -> TrivA { let ok = ck_f32(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi36(k: i32) -> R<()> { let x = ffi::c_abi36(mk_f32((k + 0) & 3), mk_str((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi36(k), "C++ to Rust"); Ok(()) }
fn r_abi37(a0: f32, a1: Box<RObj>, k: i32) -> Eu8 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi37(k: i32) -> R<()> { let x = ffi::c_abi37(mk_f32((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi37(k), "C++ to Rust"); Ok(()) }
fn r_abi38(a0: f32, a1: UniquePtr<CObj>, k: i32) -> [u8; 4] { let ok = ck_f32(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi38(k: i32) -> R<()> { let x = ffi::c_abi38(mk_f32((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi38(k), "C++ to Rust"); Ok(()) }
fn r_abi39(a0: f32, a1: &[u16], k: i32) { let ok = ck_f32(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi39(k: i32) -> R<()> { let x = ffi::c_abi39(mk_f32((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi39(k), "C++ to Rust"); Ok(()) }
fn r_abi40(a0: f32, a1: TrivA, k: i32) -> String { let ok = ck_f32(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi40(k: i32) -> R<()> { let x = ffi::c_abi40(mk_f32((k + 0) & 3), mk_TrivA((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi40(k), "C++ to Rust"); Ok(()) }
fn r_abi41(a0: f32, a1: SharedPtr<CObj>, k: i32) -> S3 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi41(k: i32) -> R<()> { let x = ffi::c_abi41(mk_f32((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi41(k), "C++ to Rust"); Ok(()) }
fn r_abi42(a0: f64, a1: u8, k: i32) -> S6 { let ok = ck_f64(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi42(k: i32) -> R<()> { let x = ffi::c_abi42(mk_f64((k + 0) & 3), mk_u8((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi42(k), "C++ to Rust"); Ok(()) }
fn r_abi43(a0: f64, a1: u64, k: i32) -> Box<RObj> { let ok = ck_f64(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi43(k: i32) -> R<()> { let x = ffi::c_abi43(mk_f64((k + 0) & 3), mk_u64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi43(k), "C++ to Rust"); Ok(()) }
fn r_abi44(a0: f64, a1: f32, k: i32) -> u8 { let ok = ck_f64(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi44(k: i32) -> R<()> { let x = ffi::c_abi44(mk_f64((k + 0) & 3), mk_f32((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi44(k), "C++ to Rust"); Ok(()) }
fn r_abi45(a0: f64, a1: f64, k: i32) -> f64 { let ok = ck_f64(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi45(k: i32) -> R<()> { let x = ffi::c_abi45(mk_f64((k + 0) & 3), mk_f64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi45(k), "C++ to Rust"); Ok(()) }
fn r_abi46(a0: f64, a1: S2, k: i32) -> UniquePtr<CObj> { let ok = ck_f64(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi46(k: i32) -> R<()> { let x = ffi::c_abi46(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi46(k), "C++ to Rust"); Ok(()) }
fn r_abi47(a0: f64, a1: S3, k: i32) -> Vec<u8> { let ok = ck_f64(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi47(k: i32) -> R<()> { let x = ffi::c_abi47(mk_f64((k + 0) & 3), mk_S3((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi47(k), "C++ to Rust"); Ok(()) }
fn r_abi48(a0: f64, a1: S6, k: i32) -> SharedPtr<CObj> { let ok = ck_f64(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi48(k: i32) -> R<()> { let x = ffi::c_abi48(mk_f64((k + 0) & 3), mk_S6((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi48(k), "C++ to Rust"); Ok(()) }
fn r_abi49(a0: f64, a1: String, k: i32) -> TrivA { let ok = ck_f64(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi49(k: i32) -> R<()> { let x = ffi::c_abi49(mk_f64((k + 0) & 3), mk_String((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi49(k), "C++ to Rust"); Ok(()) }
fn r_abi50(a0: f64, a1: &str, k: i32) -> Eu8 { let ok = ck_f64(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi50(k: i32) -> R<()> { let x = ffi::c_abi50(mk_f64((k + 0) & 3), mk_str((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi50(k), "C++ to Rust"); Ok(()) }
fn r_abi51(a0: f64, a1: Box<RObj>, k: i32) -> [u8; 4] { let ok = ck_f64(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi51(k: i32) -> R<()> { let x = ffi::c_abi51(mk_f64((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi51(k), "C++ to Rust"); Ok(()) }
fn r_abi52(a0: f64, a1: UniquePtr<CObj>, k: i32) { let ok = ck_f64(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi52(k: i32) -> R<()> { let x = ffi::c_abi52(mk_f64((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi52(k), "C++ to Rust"); Ok(()) }
fn r_abi53(a0: f64, a1: &[u16], k: i32) -> R<String> { let ok = ck_f64(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi53(k: i32) -> R<()> { let x = ffi::c_abi53(mk_f64((k + 0) & 3), mk_sl_u16((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi53(k), "C++ to Rust"); Ok(()) }
fn r_abi54(a0: f64, a1: TrivA, k: i32) -> R<S3> { let ok = ck_f64(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi54(k: i32) -> R<()> { let x = ffi::c_abi54(mk_f64((k + 0) & 3), mk_TrivA((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi54(k), "C++ to Rust"); Ok(()) }
fn r_abi55(a0: f64, a1: SharedPtr<CObj>, k: i32) -> R<S6> { let ok = ck_f64(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi55(k: i32) -> R<()> { let x = ffi::c_abi55(mk_f64((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi55(k), "C++ to Rust"); Ok(()) }
fn r_abi56(a0: S2, a1: u8, k: i32) -> R<Box<RObj>> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi56(k: i32) -> R<()> { let x = ffi::c_abi56(mk_S2((k + 0) & 3), mk_u8((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi56(k), "C++ to Rust"); Ok(()) }
fn r_abi57(a0: S2, a1: u64, k: i32) -> R<u8> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi57(k: i32) -> R<()> { let x = ffi::c_abi57(mk_S2((k + 0) & 3), mk_u64((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi57(k), "C++ to Rust"); Ok(()) }
fn r_abi58(a0: S2, a1: f32, k: i32) -> R<f64> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi58(k: i32) -> R<()> { let x = ffi::c_abi58(mk_S2((k + 0) & 3), mk_f32((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi58(k), "C++ to Rust"); Ok(()) }
fn r_abi59(a0: S2, a1: f64, k: i32) -> R<UniquePtr<CObj>> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi59(k: i32) -> R<()> { let x = ffi::c_abi59(mk_S2((k + 0) & 3), mk_f64((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi59(k), "C++ to Rust"); Ok(()) }
fn r_abi60(a0: S2, a1: S2, k: i32) -> R<Vec<u8>> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi60(k: i32) -> R<()> { let x = ffi::c_abi60(mk_S2((k + 0) & 3), mk_S2((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi60(k), "C++ to Rust"); Ok(()) }
fn r_abi61(a0: S2, a1: S3, k: i32) -> R<SharedPtr<CObj>> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi61(k: i32) -> R<()> { let x = ffi::c_abi61(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi61(k), "C++ to Rust"); Ok(()) }
fn r_abi62(a0: S2, a1: S6, k: i32) -> R<TrivA> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi62(k: i32) -> R<()> { let x = ffi::c_abi62(mk_S2((k + 0) & 3), mk_S6((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi62(k), "C++ to Rust"); Ok(()) }
fn r_abi63(a0: S2, a1: String, k: i32) -> R<Eu8> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi63(k: i32) -> R<()> { let x = ffi::c_abi63(mk_S2((k + 0) & 3), mk_String((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi63(k), "C++ to Rust"); Ok(()) }
fn r_abi64(a0: S2, a1: &str, k: i32) -> R<[u8; 4]> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi64(k: i32) -> R<()> { let x = ffi::c_abi64(mk_S2((k + 0) & 3), mk_str((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi64(k), "C++ to Rust"); Ok(()) }
fn r_abi65(a0: S2, a1: Box<RObj>, k: i32) { let ok = ck_S2(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi65(k: i32) -> R<()> { let x = ffi::c_abi65(mk_S2((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi65(k), "C++ to Rust"); Ok(()) }
fn r_abi66(a0: S2, a1: UniquePtr<CObj>, k: i32) -> String { let ok = ck_S2(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi66(k: i32) -> R<()> { let x = ffi::c_abi66(mk_S2((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi66(k), "C++ to Rust"); Ok(()) }
fn r_abi67(a0: S2, a1: &[u16], k: i32) -> S3 { let ok = ck_S2(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi67(k: i32) -> R<()> { let x = ffi::c_abi67(mk_S2((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi67(k), "C++ to Rust"); Ok(()) }
fn r_abi68(a0: S2, a1: TrivA, k: i32) -> S6 { let ok = ck_S2(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi68(k: i32) -> R<()> { let x = ffi::c_abi68(mk_S2((k + 0) & 3), mk_TrivA((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi68(k), "C++ to Rust"); Ok(()) }
fn r_abi69(a0: S2, a1: SharedPtr<CObj>, k: i32) -> Box<RObj> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi69(k: i32) -> R<()> { let x = ffi::c_abi69(mk_S2((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi69(k), "C++ to Rust"); Ok(()) }
fn r_abi70(a0: S3, a1: u8, k: i32) -> u8 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi70(k: i32) -> R<()> { let x = ffi::c_abi70(mk_S3((k + 0) & 3), mk_u8((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi70(k), "C++ to Rust"); Ok(()) }
fn r_abi71(a0: S3, a1: u64, k: i32) -> f64 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi71(k: i32) -> R<()> { let x = ffi::c_abi71(mk_S3((k + 0) & 3), mk_u64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi71(k), "C++ to Rust"); Ok(()) }
fn r_abi72(a0: S3, a1: f32, k: i32) -> UniquePtr<CObj> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi72(k: i32) -> R<()> { let x = ffi::c_abi72(mk_S3((k + 0) & 3), mk_f32((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi72(k), "C++ to Rust"); Ok(()) }
fn r_abi73(a0: S3, a1: f64, k: i32) -> Vec<u8> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi73(k: i32) -> R<()> { let x = ffi::c_abi73(mk_S3((k + 0) & 3), mk_f64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi73(k), "C++ to Rust"); Ok(()) }
fn r_abi74(a0: S3, a1: S2, k: i32) -> SharedPtr<CObj> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi74(k: i32) -> R<()> { let x = ffi::c_abi74(mk_S3((k + 0) & 3), mk_S2((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi74(k), "C++ to Rust"); Ok(()) }
fn r_abi75(a0: S3, a1: S3, k: i32) -> TrivA { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi75(k: i32) -> R<()> { let x = ffi::c_abi75(mk_S3((k + 0) & 3), mk_S3((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi75(k), "C++ to Rust"); Ok(()) }
fn r_abi76(a0: S3, a1: S6, k: i32) -> Eu8 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi76(k: i32) -> R<()> { let x = ffi::c_abi76(mk_S3((k + 0) & 3), mk_S6((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi76(k), "C++ to Rust"); Ok(()) }
fn r_abi77(a0: S3, a1: String, k: i32) -> [u8; 4] { let ok = ck_S3(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi77(k: i32) -> R<()> { let x = ffi::c_abi77(mk_S3((k + 0) & 3), mk_String((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi77(k), "C++ to Rust"); Ok(()) }
fn r_abi78(a0: S3, a1: &str, k: i32) { let ok = ck_S3(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi78(k: i32) -> R<()> { let x = ffi::c_abi78(mk_S3((k + 0) & 3), mk_str((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi78(k), "C++ to Rust"); Ok(()) }
fn r_abi79(a0: S3, a1: Box<RObj>, k: i32) -> String { let ok = ck_S3(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi79(k: i32) -> R<()> { let x = ffi::c_abi79(mk_S3((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi79(k), "C++ to Rust"); Ok(()) }
fn r_abi80(a0: S3, a1: UniquePtr<CObj>, k: i32) -> S3 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi80(k: i32) -> R<()> { let x = ffi::c_abi80(mk_S3((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi80(k), "C++ to Rust"); Ok(()) }
fn r_abi81(a0: S3, a1: &[u16], k: i32) -> S6 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi81(k: i32) -> R<()> { let x = ffi::c_abi81(mk_S3((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi81(k), "C++ to Rust"); Ok(()) }
fn r_abi82(a0: S3, a1: TrivA, k: i32) -> Box<RObj> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi82(k: i32) -> R<()> { let x = ffi::c_abi82(mk_S3((k + 0) & 3), mk_TrivA((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi82(k), "C++ to Rust"); Ok(()) }
fn r_abi83(a0: S3, a1: SharedPtr<CObj>, k: i32) -> u8 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi83(k: i32) -> R<()> { let x = ffi::c_abi83(mk_S3((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi83(k), "C++ to Rust"); Ok(()) }
fn r_abi84(a0: S6, a1: u8, k: i32) -> f64 { let ok = ck_S6(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi84(k: i32) -> R<()> { let x = ffi::c_abi84(mk_S6((k + 0) & 3), mk_u8((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi84(k), "C++ to Rust"); Ok(()) }
fn r_abi85(a0: S6, a1: u64, k: i32) -> UniquePtr<CObj> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi85(k: i32) -> R<()> { let x = ffi::c_abi85(mk_S6((k + 0) & 3), mk_u64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi85(k), "C++ to Rust"); Ok(()) }
fn r_abi86(a0: S6, a1: f32, k: i32) -> Vec<u8> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi86(k: i32) -> R<()> { let x = ffi::c_abi86(mk_S6((k + 0) & 3), mk_f32((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi86(k), "C++ to Rust"); Ok(()) }
fn r_abi87(a0: S6, a1: f64, k: i32) -> SharedPtr<CObj> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi87(k: i32) -> R<()> { let x = ffi::c_abi87(mk_S6((k + 0) & 3), mk_f64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi87(k), "C++ to Rust"); Ok(()) }
fn r_abi88(a0: S6, a1: S2, k: i32) -> TrivA { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi88(k: i32) -> R<()> { let x = ffi::c_abi88(mk_S6((k + 0) & 3), mk_S2((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi88(k), "C++ to Rust"); Ok(()) }
fn r_abi89(a0: S6, a1: S3, k: i32) -> Eu8 { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi89(k: i32) -> R<()> { let x = ffi::c_abi89(mk_S6((k + 0) & 3), mk_S3((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi89(k), "C++ to Rust"); Ok(()) }
fn r_abi90(a0: S6, a1: S6, k: i32) -> [u8; 4] { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi90(k: i32) -> R<()> { let x = ffi::c_abi90(mk_S6((k + 0) & 3), mk_S6((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi90(k), "C++ to Rust"); Ok(()) }
fn r_abi91(a0: S6, a1: String, k: i32) { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi91(k: i32) -> R<()> { let x = ffi::c_abi91(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi91(k), "C++ to Rust"); Ok(()) }
fn r_abi92(a0: S6, a1: &str, k: i32) -> R<String> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi92(k: i32) -> R<()> { let x = ffi::c_abi92(mk_S6((k + 0) & 3), mk_str((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi92(k), "C++ to Rust"); Ok(()) }
fn r_abi93(a0: S6, a1: Box<RObj>, k: i32) -> R<S3> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi93(k: i32) -> R<()> { let x = ffi::c_abi93(mk_S6((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi93(k), "C++ to Rust"); Ok(()) }
fn r_abi94(a0: S6, a1: UniquePtr<CObj>, k: i32) -> R<S6> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi94(k: i32) -> R<()> { let x = ffi::c_abi94(mk_S6((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi94(k), "C++ to Rust"); Ok(()) }
fn r_abi95(a0: S6, a1: &[u16], k: i32) -> R<Box<RObj>> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi95(k: i32) -> R<()> { let x = ffi::c_abi95(mk_S6((k + 0) & 3), mk_sl_u16((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi95(k), "C++ to Rust"); Ok(()) }
fn r_abi96(a0: S6, a1: TrivA, k: i32) -> R<u8> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi96(k: i32) -> R<()> { let x = ffi::c_abi96(mk_S6((k + 0) & 3), mk_TrivA((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi96(k), "C++ to Rust"); Ok(()) }
fn r_abi97(a0: S6, a1: SharedPtr<CObj>, k: i32) -> R<f64> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi97(k: i32) -> R<()> { let x = ffi::c_abi97(mk_S6((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi97(k), "C++ to Rust"); Ok(()) }
fn r_abi98(a0: String, a1: u8, k: i32) -> R<UniquePtr<CObj>> { let ok = ck_String(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi98(k: i32) -> R<()> { let x = ffi::c_abi98(mk_String((k + 0) & 3), mk_u8((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi98(k), "C++ to Rust"); Ok(()) }
fn r_abi99(a0: String, a1: u64, k: i32) -> R<Vec<u8>> { let ok = ck_String(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi99(k: i32) -> R<()> { let x = ffi::c_abi99(mk_String((k + 0) & 3), mk_u64((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi99(k), "C++ to Rust"); Ok(()) }
fn r_abi100(a0: String, a1: f32, k: i32) -> R<SharedPtr<CObj>> { let ok = ck_String(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi100(k: i32) -> R<()> { let x = ffi::c_abi100(mk_String((k + 0) & 3), mk_f32((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi100(k), "C++ to Rust"); Ok(()) }
fn r_abi101(a0: String, a1: f64, k: i32) -> R<TrivA> { let ok = ck_String(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi101(k: i32) -> R<()> { let x = ffi::c_abi101(mk_String((k + 0) & 3), mk_f64((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi101(k), "C++ to Rust"); Ok(()) }
fn r_abi102(a0: String, a1: S2, k: i32) -> R<Eu8> { let ok = ck_String(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi102(k: i32) -> R<()> { let x = ffi::c_abi102(mk_String((k + 0) & 3), mk_S2((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi102(k), "C++ to Rust"); Ok(()) }
fn r_abi103(a0: String, a1: S3, k: i32) -> R<[u8; 4]> { let ok = ck_String(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi103(k: i32) -> R<()> { let x = ffi::c_abi103(mk_String((k + 0) & 3), mk_S3((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi103(k), "C++ to Rust"); Ok(()) }
fn r_abi104(a0: String, a1: S6, k: i32) { let ok = ck_String(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi104(k: i32) -> R<()> { let x = ffi::c_abi104(mk_String((k + 0) & 3), mk_S6((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi104(k), "C++ to Rust"); Ok(()) }
fn r_abi105(a0: String, a1: String, k: i32) -> String { let ok = ck_String(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi105(k: i32) -> R<()> { let x = ffi::c_abi105(mk_String((k + 0) & 3), mk_String((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi105(k), "C++ to Rust"); Ok(()) }
fn r_abi106(a0: String, a1: &str, k: i32) -> S3 { let ok = ck_String(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi106(k: i32) -> R<()> { let x = ffi::c_abi106(mk_String((k + 0) & 3), mk_str((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi106(k), "C++ to Rust"); Ok(()) }
fn r_abi107(a0: String, a1: Box<RObj>, k: i32) -> S6 { let ok = ck_String(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi107(k: i32) -> R<()> { let x = ffi::c_abi107(mk_String((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi107(k), "C++ to Rust"); Ok(()) }
fn r_abi108(a0: String, a1: UniquePtr<CObj>, k: i32) -> Box<RObj> { let ok = ck_String(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi108(k: i32) -> R<()> { let x = ffi::c_abi108(mk_String((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi108(k), "C++ to Rust"); Ok(()) }
fn r_abi109(a0: String, a1: &[u16], k: i32) -> u8 { let ok = ck_String(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi109(k: i32) -> R<()> { let x = ffi::c_abi109(mk_String((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi109(k), "C++ to Rust"); Ok(()) }
fn r_abi110(a0: String, a1: TrivA, k: i32) -> f64 { let ok = ck_String(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi110(k: i32) -> R<()> { let x = ffi::c_abi110(mk_String((k + 0) & 3), mk_TrivA((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi110(k), "C++ to Rust"); Ok(()) }
fn r_abi111(a0: String, a1: SharedPtr<CObj>, k: i32) -> UniquePtr<CObj> { let ok = ck_String(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi111(k: i32) -> R<()> { let x = ffi::c_abi111(mk_String((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi111(k), "C++ to Rust"); Ok(()) }
fn r_abi112(a0: &str, a1: u8, k: i32) -> Vec<u8> { let ok = ck_str(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi112(k: i32) -> R<()> { let x = ffi::c_abi112(mk_str((k + 0) & 3), mk_u8((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi112(k), "C++ to Rust"); Ok(()) }
fn r_abi113(a0: &str, a1: u64, k: i32) -> SharedPtr<CObj> { let ok = ck_str(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi113(k: i32) -> R<()> { let x = ffi::c_abi113(mk_str((k + 0) & 3), mk_u64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi113(k), "C++ to Rust"); Ok(()) }
fn r_abi114(a0: &str, a1: f32, k: i32) -> TrivA { let ok = ck_str(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi114(k: i32) -> R<()> { let x = ffi::c_abi114(mk_str((k + 0) & 3), mk_f32((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi114(k), "C++ to Rust"); Ok(()) }
fn r_abi115(a0: &str, a1: f64, k: i32) -> Eu8 { let ok = ck_str(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi115(k: i32) -> R<()> { let x = ffi::c_abi115(mk_str((k + 0) & 3), mk_f64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi115(k), "C++ to Rust"); Ok(()) }
fn r_abi116(a0: &str, a1: S2, k: i32) -> [u8; 4] { let ok = ck_str(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi116(k: i32) -> R<()> { let x = ffi::c_abi116(mk_str((k + 0) & 3), mk_S2((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi116(k), "C++ to Rust"); Ok(()) }
fn r_abi117(a0: &str, a1: S3, k: i32) { let ok = ck_str(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi117(k: i32) -> R<()> { let x = ffi::c_abi117(mk_str((k + 0) & 3), mk_S3((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi117(k), "C++ to Rust"); Ok(()) }
fn r_abi118(a0: &str, a1: S6, k: i32) -> String { let ok = ck_str(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi118(k: i32) -> R<()> { let x = ffi::c_abi118(mk_str((k + 0) & 3), mk_S6((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi118(k), "C++ to Rust"); Ok(()) }
fn r_abi119(a0: &str, a1: String, k: i32) -> S3 { let ok = ck_str(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi119(k: i32) -> R<()> { let x = ffi::c_abi119(mk_str((k + 0) & 3), mk_String((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi119(k), "C++ to Rust"); Ok(()) }
fn r_abi120(a0: &str, a1: &str, k: i32) -> S6 { let ok = ck_str(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi120(k: i32) -> R<()> { let x = ffi::c_abi120(mk_str((k + 0) & 3), mk_str((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi120(k), "C++ to Rust"); Ok(()) }
fn r_abi121(a0: &str, a1: Box<RObj>, k: i32) -> Box<RObj> { let ok = ck_str(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi121(k: i32) -> R<()> { let x = ffi::c_abi121(mk_str((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi121(k), "C++ to Rust"); Ok(()) }
fn r_abi122(a0: &str, a1: UniquePtr<CObj>, k: i32) -> u8 { let ok = ck_str(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi122(k: i32) -> R<()> { let x = ffi::c_abi122(mk_str((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi122(k), "C++ to Rust"); Ok(()) }
fn r_abi123(a0: &str, a1: &[u16], k: i32) -> f64 { let ok = ck_str(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi123(k: i32) -> R<()> { let x = ffi::c_abi123(mk_str((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi123(k), "C++ to Rust"); Ok(()) }
fn r_abi124(a0: &str, a1: TrivA, k: i32) -> UniquePtr<CObj> { let ok = ck_str(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi124(k: i32) -> R<()> { let x = ffi::c_abi124(mk_str((k + 0) & 3), mk_TrivA((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi124(k), "C++ to Rust"); Ok(()) }
fn r_abi125(a0: &str, a1: SharedPtr<CObj>, k: i32) -> Vec<u8> { let ok = ck_str(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi125(k: i32) -> R<()> { let x = ffi::c_abi125(mk_str((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi125(k), "C++ to Rust"); Ok(()) }
fn r_abi126(a0: Box<RObj>, a1: u8, k: i32) -> SharedPtr<CObj> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi126(k: i32) -> R<()> { let x = ffi::c_abi126(mk_Box_RObj((k + 0) & 3), mk_u8((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi126(k), "C++ to Rust"); Ok(()) }
fn r_abi127(a0: Box<RObj>, a1: u64, k: i32) -> TrivA { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi127(k: i32) -> R<()> { let x = ffi::c_abi127(mk_Box_RObj((k + 0) & 3), mk_u64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi127(k), "C++ to Rust"); Ok(()) }
fn r_abi128(a0: Box<RObj>, a1: f32, k: i32) -> Eu8 { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi128(k: i32) -> R<()> { let x = ffi::c_abi128(mk_Box_RObj((k + 0) & 3), mk_f32((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi128(k), "C++ to Rust"); Ok(()) }
fn r_abi129(a0: Box<RObj>, a1: f64, k: i32) -> [u8; 4] { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi129(k: i32) -> R<()> { let x = ffi::c_abi129(mk_Box_RObj((k + 0) & 3), mk_f64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi129(k), "C++ to Rust"); Ok(()) }
fn r_abi130(a0: Box<RObj>, a1: S2, k: i32) { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi130(k: i32) -> R<()> { let x = ffi::c_abi130(mk_Box_RObj((k + 0) & 3), mk_S2((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi130(k), "C++ to Rust"); Ok(()) }
fn r_abi131(a0: Box<RObj>, a1: S3, k: i32) -> R<String> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi131(k: i32) -> R<()> { let x = ffi::c_abi131(mk_Box_RObj((k + 0) & 3), mk_S3((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi131(k), "C++ to Rust"); Ok(()) }
fn r_abi132(a0: Box<RObj>, a1: S6, k: i32) -> R<S3> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi132(k: i32) -> R<()> { let x = ffi::c_abi132(mk_Box_RObj((k + 0) & 3), mk_S6((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi132(k), "C++ to Rust"); Ok(()) }
fn r_abi133(a0: Box<RObj>, a1: String, k: i32) -> R<S6> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi133(k: i32) -> R<()> { let x = ffi::c_abi133(mk_Box_RObj((k + 0) & 3), mk_String((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi133(k), "C++ to Rust"); Ok(()) }
fn r_abi134(a0: Box<RObj>, a1: &str, k: i32) -> R<Box<RObj>> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi134(k: i32) -> R<()> { let x = ffi::c_abi134(mk_Box_RObj((k + 0) & 3), mk_str((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi134(k), "C++ to Rust"); Ok(()) }
fn r_abi135(a0: Box<RObj>, a1: Box<RObj>, k: i32) -> R<u8> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi135(k: i32) -> R<()> { let x = ffi::c_abi135(mk_Box_RObj((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi135(k), "C++ to Rust"); Ok(()) }
fn r_abi136(a0: Box<RObj>, a1: UniquePtr<CObj>, k: i32) -> R<f64> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi136(k: i32) -> R<()> { let x = ffi::c_abi136(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi136(k), "C++ to Rust"); Ok(()) }
fn r_abi137(a0: Box<RObj>, a1: &[u16], k: i32) -> R<UniquePtr<CObj>> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi137(k: i32) -> R<()> { let x = ffi::c_abi137(mk_Box_RObj((k + 0) & 3), mk_sl_u16((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi137(k), "C++ to Rust"); Ok(()) }
fn r_abi138(a0: Box<RObj>, a1: TrivA, k: i32) -> R<Vec<u8>> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi138(k: i32) -> R<()> { let x = ffi::c_abi138(mk_Box_RObj((k + 0) & 3), mk_TrivA((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi138(k), "C++ to Rust"); Ok(()) }
fn r_abi139(a0: Box<RObj>, a1: SharedPtr<CObj>, k: i32) -> R<SharedPtr<CObj>> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi139(k: i32) -> R<()> { let x = ffi::c_abi139(mk_Box_RObj((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi139(k), "C++ to Rust"); Ok(()) }
fn r_abi140(a0: UniquePtr<CObj>, a1: u8, k: i32) -> R<TrivA> { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi140(k: i32) -> R<()> { let x = ffi::c_abi140(mk_UniquePtr_CObj((k + 0) & 3), mk_u8((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi140(k), "C++ to Rust"); Ok(()) }
fn r_abi141(a0: UniquePtr<CObj>, a1: u64, k: i32) -> R<Eu8> { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi141(k: i32) -> R<()> { let x = ffi::c_abi141(mk_UniquePtr_CObj((k + 0) & 3), mk_u64((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi141(k), "C++ to Rust"); Ok(()) }
fn r_abi142(a0: UniquePtr<CObj>, a1: f32, k: i32) -> R<[u8; 4]> { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi142(k: i32) -> R<()> { let x = ffi::c_abi142(mk_UniquePtr_CObj((k + 0) & 3), mk_f32((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi142(k), "C++ to Rust"); Ok(()) }
fn r_abi143(a0: UniquePtr<CObj>, a1: f64, k: i32) { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi143(k: i32) -> R<()> { let x = ffi::c_abi143(mk_UniquePtr_CObj((k + 0) & 3), mk_f64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi143(k), "C++ to Rust"); Ok(()) }
fn r_abi144(a0: UniquePtr<CObj>, a1: S2, k: i32) -> String { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi144(k: i32) -> R<()> { let x = ffi::c_abi144(mk_UniquePtr_CObj((k + 0) & 3), mk_S2((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi144(k), "C++ to Rust"); Ok(()) }
fn r_abi145(a0: UniquePtr<CObj>, a1: S3, k: i32) -> S3 { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi145(k: i32) -> R<()> { let x = ffi::c_abi145(mk_UniquePtr_CObj((k + 0) & 3), mk_S3((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi145(k), "C++ to Rust"); Ok(()) }
fn r_abi146(a0: UniquePtr<CObj>, a1: S6, k: i32) -> S6 { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi146(k: i32) -> R<()> { let x = ffi::c_abi146(mk_UniquePtr_CObj((k + 0) & 3), mk_S6((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi146(k), "C++ to Rust"); Ok(()) }
fn r_abi147(a0: UniquePtr<CObj>, a1: String, k: i32) -> Box<RObj> { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi147(k: i32) -> R<()> { let x = ffi::c_abi147(mk_UniquePtr_CObj((k + 0) & 3), mk_String((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi147(k), "C++ to Rust"); Ok(()) }
fn r_abi148(a0: UniquePtr<CObj>, a1: &str, k: i32) -> u8 { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi148(k: i32) -> R<()> { let x = ffi::c_abi148(mk_UniquePtr_CObj((k + 0) & 3), mk_str((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi148(k), "C++ to Rust"); Ok(()) }
fn r_abi149(a0: UniquePtr<CObj>, a1: Box<RObj>, k: i32) -> f64 { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi149(k: i32) -> R<()> { let x = ffi::c_abi149(mk_UniquePtr_CObj((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi149(k), "C++ to Rust"); Ok(()) }
fn r_abi150(a0: UniquePtr<CObj>, a1: UniquePtr<CObj>, k: i32) -> UniquePtr<CObj> { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi150(k: i32) -> R<()> { let x = ffi::c_abi150(mk_UniquePtr_CObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi150(k), "C++ to Rust"); Ok(()) }
fn r_abi151(a0: UniquePtr<CObj>, a1: &[u16], k: i32) -> Vec<u8> { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi151(k: i32) -> R<()> { let x = ffi::c_abi151(mk_UniquePtr_CObj((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi151(k), "C++ to Rust"); Ok(()) }
fn r_abi152(a0: UniquePtr<CObj>, a1: TrivA, k: i32) -> SharedPtr<CObj> { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi152(k: i32) -> R<()> { let x = ffi::c_abi152(mk_UniquePtr_CObj((k + 0) & 3), mk_TrivA((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi152(k), "C++ to Rust"); Ok(()) }
fn r_abi153(a0: UniquePtr<CObj>, a1: SharedPtr<CObj>, k: i32) -> TrivA { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi153(k: i32) -> R<()> { let x = ffi::c_abi153(mk_UniquePtr_CObj((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi153(k), "C++ to Rust"); Ok(()) }
fn r_abi154(a0: &[u16], a1: u8, k: i32) -> Eu8 { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi154(k: i32) -> R<()> { let x = ffi::c_abi154(mk_sl_u16((k + 0) & 3), mk_u8((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi154(k), "C++ to Rust"); Ok(()) }
fn r_abi155(a0: &[u16], a1: u64, k: i32) -> [u8; 4] { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi155(k: i32) -> R<()> { let x = ffi::c_abi155(mk_sl_u16((k + 0) & 3), mk_u64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi155(k), "C++ to Rust"); Ok(()) }
fn r_abi156(a0: &[u16], a1: f32, k: i32) { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi156(k: i32) -> R<()> { let x = ffi::c_abi156(mk_sl_u16((k + 0) & 3), mk_f32((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi156(k), "C++ to Rust"); Ok(()) }
fn r_abi157(a0: &[u16], a1: f64, k: i32) -> String { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi157(k: i32) -> R<()> { let x = ffi::c_abi157(mk_sl_u16((k + 0) & 3), mk_f64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi157(k), "C++ to Rust"); Ok(()) }
fn r_abi158(a0: &[u16], a1: S2, k: i32) -> S3 { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi158(k: i32) -> R<()> { let x = ffi::c_abi158(mk_sl_u16((k + 0) & 3), mk_S2((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi158(k), "C++ to Rust"); Ok(()) }
fn r_abi159(a0: &[u16], a1: S3, k: i32) -> S6 { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi159(k: i32) -> R<()> { let x = ffi::c_abi159(mk_sl_u16((k + 0) & 3), mk_S3((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi159(k), "C++ to Rust"); Ok(()) }
fn r_abi160(a0: &[u16], a1: S6, k: i32) -> Box<RObj> { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi160(k: i32) -> R<()> { let x = ffi::c_abi160(mk_sl_u16((k + 0) & 3), mk_S6((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi160(k), "C++ to Rust"); Ok(()) }
fn r_abi161(a0: &[u16], a1: String, k: i32) -> u8 { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi161(k: i32) -> R<()> { let x = ffi::c_abi161(mk_sl_u16((k + 0) & 3), mk_String((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi161(k), "C++ to Rust"); Ok(()) }
fn r_abi162(a0: &[u16], a1: &str, k: i32) -> f64 { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi162(k: i32) -> R<()> { let x = ffi::c_abi162(mk_sl_u16((k + 0) & 3), mk_str((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi162(k), "C++ to Rust"); Ok(()) }
fn r_abi163(a0: &[u16], a1: Box<RObj>, k: i32) -> UniquePtr<CObj> { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi163(k: i32) -> R<()> { let x = ffi::c_abi163(mk_sl_u16((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi163(k), "C++ to Rust"); Ok(()) }
fn r_abi164(a0: &[u16], a1: UniquePtr<CObj>, k: i32) -> Vec<u8> { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi164(k: i32) -> R<()> { let x = ffi::c_abi164(mk_sl_u16((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi164(k), "C++ to Rust"); Ok(()) }
fn r_abi165(a0: &[u16], a1: &[u16], k: i32) -> SharedPtr<CObj> { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi165(k: i32) -> R<()> { let x = ffi::c_abi165(mk_sl_u16((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi165(k), "C++ to Rust"); Ok(()) }
fn r_abi166(a0: &[u16], a1: TrivA, k: i32) -> TrivA { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi166(k: i32) -> R<()> { let x = ffi::c_abi166(mk_sl_u16((k + 0) & 3), mk_TrivA((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi166(k), "C++ to Rust"); Ok(()) }
fn r_abi167(a0: &[u16], a1: SharedPtr<CObj>, k: i32) -> Eu8 { let ok = ck_sl_u16(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi167(k: i32) -> R<()> { let x = ffi::c_abi167(mk_sl_u16((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi167(k), "C++ to Rust"); Ok(()) }
fn r_abi168(a0: TrivA, a1: u8, k: i32) -> [u8; 4] { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi168(k: i32) -> R<()> { let x = ffi::c_abi168(mk_TrivA((k + 0) & 3), mk_u8((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi168(k), "C++ to Rust"); Ok(()) }
fn r_abi169(a0: TrivA, a1: u64, k: i32) { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi169(k: i32) -> R<()> { let x = ffi::c_abi169(mk_TrivA((k + 0) & 3), mk_u64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi169(k), "C++ to Rust"); Ok(()) }
fn r_abi170(a0: TrivA, a1: f32, k: i32) -> R<String> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi170(k: i32) -> R<()> { let x = ffi::c_abi170(mk_TrivA((k + 0) & 3), mk_f32((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi170(k), "C++ to Rust"); Ok(()) }
fn r_abi171(a0: TrivA, a1: f64, k: i32) -> R<S3> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi171(k: i32) -> R<()> { let x = ffi::c_abi171(mk_TrivA((k + 0) & 3), mk_f64((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi171(k), "C++ to Rust"); Ok(()) }
fn r_abi172(a0: TrivA, a1: S2, k: i32) -> R<S6> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi172(k: i32) -> R<()> { let x = ffi::c_abi172(mk_TrivA((k + 0) & 3), mk_S2((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi172(k), "C++ to Rust"); Ok(()) }
fn r_abi173(a0: TrivA, a1: S3, k: i32) -> R<Box<RObj>> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi173(k: i32) -> R<()> { let x = ffi::c_abi173(mk_TrivA((k + 0) & 3), mk_S3((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi173(k), "C++ to Rust"); Ok(()) }
fn r_abi174(a0: TrivA, a1: S6, k: i32) -> R<u8> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi174(k: i32) -> R<()> { let x = ffi::c_abi174(mk_TrivA((k + 0) & 3), mk_S6((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi174(k), "C++ to Rust"); Ok(()) }
fn r_abi175(a0: TrivA, a1: String, k: i32) -> R<f64> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi175(k: i32) -> R<()> { let x = ffi::c_abi175(mk_TrivA((k + 0) & 3), mk_String((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi175(k), "C++ to Rust"); Ok(()) }
fn r_abi176(a0: TrivA, a1: &str, k: i32) -> R<UniquePtr<CObj>> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi176(k: i32) -> R<()> { let x = ffi::c_abi176(mk_TrivA((k + 0) & 3), mk_str((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi176(k), "C++ to Rust"); Ok(()) }
fn r_abi177(a0: TrivA, a1: Box<RObj>, k: i32) -> R<Vec<u8>> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi177(k: i32) -> R<()> { let x = ffi::c_abi177(mk_TrivA((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi177(k), "C++ to Rust"); Ok(()) }
fn r_abi178(a0: TrivA, a1: UniquePtr<CObj>, k: i32) -> R<SharedPtr<CObj>> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi178(k: i32) -> R<()> { let x = ffi::c_abi178(mk_TrivA((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi178(k), "C++ to Rust"); Ok(()) }
fn r_abi179(a0: TrivA, a1: &[u16], k: i32) -> R<TrivA> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi179(k: i32) -> R<()> { let x = ffi::c_abi179(mk_TrivA((k + 0) & 3), mk_sl_u16((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi179(k), "C++ to Rust"); Ok(()) }
fn r_abi180(a0: TrivA, a1: TrivA, k: i32) -> R<Eu8> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi180(k: i32) -> R<()> { let x = ffi::c_abi180(mk_TrivA((k + 0) & 3), mk_TrivA((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi180(k), "C++ to Rust"); Ok(()) }
fn r_abi181(a0: TrivA, a1: SharedPtr<CObj>, k: i32) -> R<[u8; 4]> { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi181(k: i32) -> R<()> { let x = ffi::c_abi181(mk_TrivA((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi181(k), "C++ to Rust"); Ok(()) }
fn r_abi182(a0: SharedPtr<CObj>, a1: u8, k: i32) { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_u8(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi182(k: i32) -> R<()> { let x = ffi::c_abi182(mk_SharedPtr_CObj((k + 0) & 3), mk_u8((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi182(k), "C++ to Rust"); Ok(()) }
fn r_abi183(a0: SharedPtr<CObj>, a1: u64, k: i32) -> String { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi183(k: i32) -> R<()> { let x = ffi::c_abi183(mk_SharedPtr_CObj((k + 0) & 3), mk_u64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi183(k), "C++ to Rust"); Ok(()) }
fn r_abi184(a0: SharedPtr<CObj>, a1: f32, k: i32) -> S3 { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_f32(&a1, (k + 1) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi184(k: i32) -> R<()> { let x = ffi::c_abi184(mk_SharedPtr_CObj((k + 0) & 3), mk_f32((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi184(k), "C++ to Rust"); Ok(()) }
fn r_abi185(a0: SharedPtr<CObj>, a1: f64, k: i32) -> S6 { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi185(k: i32) -> R<()> { let x = ffi::c_abi185(mk_SharedPtr_CObj((k + 0) & 3), mk_f64((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi185(k), "C++ to Rust"); Ok(()) }
fn r_abi186(a0: SharedPtr<CObj>, a1: S2, k: i32) -> Box<RObj> { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi186(k: i32) -> R<()> { let x = ffi::c_abi186(mk_SharedPtr_CObj((k + 0) & 3), mk_S2((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi186(k), "C++ to Rust"); Ok(()) }
fn r_abi187(a0: SharedPtr<CObj>, a1: S3, k: i32) -> u8 { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi187(k: i32) -> R<()> { let x = ffi::c_abi187(mk_SharedPtr_CObj((k + 0) & 3), mk_S3((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi187(k), "C++ to Rust"); Ok(()) }
fn r_abi188(a0: SharedPtr<CObj>, a1: S6, k: i32) -> f64 { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi188(k: i32) -> R<()> { let x = ffi::c_abi188(mk_SharedPtr_CObj((k + 0) & 3), mk_S6((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi188(k), "C++ to Rust"); Ok(()) }
fn r_abi189(a0: SharedPtr<CObj>, a1: String, k: i32) -> UniquePtr<CObj> { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi189(k: i32) -> R<()> { let x = ffi::c_abi189(mk_SharedPtr_CObj((k + 0) & 3), mk_String((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi189(k), "C++ to Rust"); Ok(()) }
fn r_abi190(a0: SharedPtr<CObj>, a1: &str, k: i32) -> Vec<u8> { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_str(&a1, (k + 1) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi190(k: i32) -> R<()> { let x = ffi::c_abi190(mk_SharedPtr_CObj((k + 0) & 3), mk_str((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi190(k), "C++ to Rust"); Ok(()) }
fn r_abi191(a0: SharedPtr<CObj>, a1: Box<RObj>, k: i32) -> SharedPtr<CObj> { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi191(k: i32) -> R<()> { let x = ffi::c_abi191(mk_SharedPtr_CObj((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi191(k), "C++ to Rust"); Ok(()) }
fn r_abi192(a0: SharedPtr<CObj>, a1: UniquePtr<CObj>, k: i32) -> TrivA { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi192(k: i32) -> R<()> { let x = ffi::c_abi192(mk_SharedPtr_CObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi192(k), "C++ to Rust"); Ok(()) }
fn r_abi193(a0: SharedPtr<CObj>, a1: &[u16], k: i32) -> Eu8 { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi193(k: i32) -> R<()> { let x = ffi::c_abi193(mk_SharedPtr_CObj((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi193(k), "C++ to Rust"); Ok(()) }
fn r_abi194(a0: SharedPtr<CObj>, a1: TrivA, k: i32) -> [u8; 4] { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_TrivA(&a1, (k + 1) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi194(k: i32) -> R<()> { let x = ffi::c_abi194(mk_SharedPtr_CObj((k + 0) & 3), mk_TrivA((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi194(k), "C++ to Rust"); Ok(()) }
fn r_abi195(a0: SharedPtr<CObj>, a1: SharedPtr<CObj>, k: i32) { let ok = ck_SharedPtr_CObj(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi195(k: i32) -> R<()> { let x = ffi::c_abi195(mk_SharedPtr_CObj((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi195(k), "C++ to Rust"); Ok(()) }
fn r_abi196(a0: u8, a1: u64, a2: u8, k: i32) -> String { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi196(k: i32) -> R<()> { let x = ffi::c_abi196(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi196(k), "C++ to Rust"); Ok(()) }
fn r_abi197(a0: u8, a1: u64, a2: f64, k: i32) -> S3 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi197(k: i32) -> R<()> { let x = ffi::c_abi197(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi197(k), "C++ to Rust"); Ok(()) }
fn r_abi198(a0: u8, a1: u64, a2: &str, k: i32) -> S6 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi198(k: i32) -> R<()> { let x = ffi::c_abi198(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi198(k), "C++ to Rust"); Ok(()) }
fn r_abi199(a0: u8, a1: u64, a2: S3, k: i32) -> Box<RObj> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi199(k: i32) -> R<()> { let x = ffi::c_abi199(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi199(k), "C++ to Rust"); Ok(()) }
fn r_abi200(a0: u8, a1: f64, a2: u8, k: i32) -> u8 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi200(k: i32) -> R<()> { let x = ffi::c_abi200(mk_u8((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi200(k), "C++ to Rust"); Ok(()) }
fn r_abi201(a0: u8, a1: f64, a2: f64, k: i32) -> f64 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi201(k: i32) -> R<()> { let x = ffi::c_abi201(mk_u8((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi201(k), "C++ to Rust"); Ok(()) }
fn r_abi202(a0: u8, a1: f64, a2: &str, k: i32) -> UniquePtr<CObj> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi202(k: i32) -> R<()> { let x = ffi::c_abi202(mk_u8((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi202(k), "C++ to Rust"); Ok(()) }
fn r_abi203(a0: u8, a1: f64, a2: S3, k: i32) -> Vec<u8> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi203(k: i32) -> R<()> { let x = ffi::c_abi203(mk_u8((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi203(k), "C++ to Rust"); Ok(()) }
fn r_abi204(a0: u8, a1: S3, a2: u8, k: i32) -> SharedPtr<CObj> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi204(k: i32) -> R<()> { let x = ffi::c_abi204(mk_u8((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi204(k), "C++ to Rust"); Ok(()) }
fn r_abi205(a0: u8, a1: S3, a2: f64, k: i32) -> TrivA { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi205(k: i32) -> R<()> { let x = ffi::c_abi205(mk_u8((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi205(k), "C++ to Rust"); Ok(()) }
fn r_abi206(a0: u8, a1: S3, a2: &str, k: i32) -> Eu8 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi206(k: i32) -> R<()> { let x = ffi::c_abi206(mk_u8((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi206(k), "C++ to Rust"); Ok(()) }
fn r_abi207(a0: u8, a1: S3, a2: S3, k: i32) -> [u8; 4] { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi207(k: i32) -> R<()> { let x = ffi::c_abi207(mk_u8((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi207(k), "C++ to Rust"); Ok(()) }
fn r_abi208(a0: u8, a1: String, a2: u8, k: i32) { let ok = ck_u8(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi208(k: i32) -> R<()> { let x = ffi::c_abi208(mk_u8((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi208(k), "C++ to Rust"); Ok(()) }
fn r_abi209(a0: u8, a1: String, a2: f64, k: i32) -> R<String> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi209(k: i32) -> R<()> { let x = ffi::c_abi209(mk_u8((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi209(k), "C++ to Rust"); Ok(()) }
fn r_abi210(a0: u8, a1: String, a2: &str, k: i32) -> R<S3> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi210(k: i32) -> R<()> { let x = ffi::c_abi210(mk_u8((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi210(k), "C++ to Rust"); Ok(()) }
fn r_abi211(a0: u8, a1: String, a2: S3, k: i32) -> R<S6> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi211(k: i32) -> R<()> { let x = ffi::c_abi211(mk_u8((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi211(k), "C++ to Rust"); Ok(()) }
fn r_abi212(a0: u8, a1: S6, a2: u8, k: i32) -> R<Box<RObj>> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi212(k: i32) -> R<()> { let x = ffi::c_abi212(mk_u8((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi212(k), "C++ to Rust"); Ok(()) }
fn r_abi213(a0: u8, a1: S6, a2: f64, k: i32) -> R<u8> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi213(k: i32) -> R<()> { let x = ffi::c_abi213(mk_u8((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi213(k), "C++ to Rust"); Ok(()) }
fn r_abi214(a0: u8, a1: S6, a2: &str, k: i32) -> R<f64> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi214(k: i32) -> R<()> { let x = ffi::c_abi214(mk_u8((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi214(k), "C++ to Rust"); Ok(()) }
fn r_abi215(a0: u8, a1: S6, a2: S3, k: i32) -> R<UniquePtr<CObj>> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi215(k: i32) -> R<()> { let x = ffi::c_abi215(mk_u8((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi215(k), "C++ to Rust"); Ok(()) }
fn r_abi216(a0: f32, a1: u64, a2: u8, k: i32) -> R<Vec<u8>> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi216(k: i32) -> R<()> { let x = ffi::c_abi216(mk_f32((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi216(k), "C++ to Rust"); Ok(()) }
fn r_abi217(a0: f32, a1: u64, a2: f64, k: i32) -> R<SharedPtr<CObj>> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi217(k: i32) -> R<()> { let x = ffi::c_abi217(mk_f32((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi217(k), "C++ to Rust"); Ok(()) }
fn r_abi218(a0: f32, a1: u64, a2: &str, k: i32) -> R<TrivA> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi218(k: i32) -> R<()> { let x = ffi::c_abi218(mk_f32((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi218(k), "C++ to Rust"); Ok(()) }
fn r_abi219(a0: f32, a1: u64, a2: S3, k: i32) -> R<Eu8> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi219(k: i32) -> R<()> { let x = ffi::c_abi219(mk_f32((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi219(k), "C++ to Rust"); Ok(()) }
fn r_abi220(a0: f32, a1: f64, a2: u8, k: i32) -> R<[u8; 4]> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi220(k: i32) -> R<()> { let x = ffi::c_abi220(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi220(k), "C++ to Rust"); Ok(()) }
fn r_abi221(a0: f32, a1: f64, a2: f64, k: i32) { let ok = ck_f32(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi221(k: i32) -> R<()> { let x = ffi::c_abi221(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi221(k), "C++ to Rust"); Ok(()) }
fn r_abi222(a0: f32, a1: f64, a2: &str, k: i32) -> String { let ok = ck_f32(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi222(k: i32) -> R<()> { let x = ffi::c_abi222(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi222(k), "C++ to Rust"); Ok(()) }
fn r_abi223(a0: f32, a1: f64, a2: S3, k: i32) -> S3 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi223(k: i32) -> R<()> { let x = ffi::c_abi223(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi223(k), "C++ to Rust"); Ok(()) }
fn r_abi224(a0: f32, a1: S3, a2: u8, k: i32) -> S6 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi224(k: i32) -> R<()> { let x = ffi::c_abi224(mk_f32((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi224(k), "C++ to Rust"); Ok(()) }
fn r_abi225(a0: f32, a1: S3, a2: f64, k: i32) -> Box<RObj> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi225(k: i32) -> R<()> { let x = ffi::c_abi225(mk_f32((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi225(k), "C++ to Rust"); Ok(()) }
fn r_abi226(a0: f32, a1: S3, a2: &str, k: i32) -> u8 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi226(k: i32) -> R<()> { let x = ffi::c_abi226(mk_f32((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi226(k), "C++ to Rust"); Ok(()) }
fn r_abi227(a0: f32, a1: S3, a2: S3, k: i32) -> f64 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi227(k: i32) -> R<()> { let x = ffi::c_abi227(mk_f32((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi227(k), "C++ to Rust"); Ok(()) }
fn r_abi228(a0: f32, a1: String, a2: u8, k: i32) -> UniquePtr<CObj> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi228(k: i32) -> R<()> { let x = ffi::c_abi228(mk_f32((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi228(k), "C++ to Rust"); Ok(()) }
fn r_abi229(a0: f32, a1: String, a2: f64, k: i32) -> Vec<u8> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi229(k: i32) -> R<()> { let x = ffi::c_abi229(mk_f32((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi229(k), "C++ to Rust"); Ok(()) }
fn r_abi230(a0: f32, a1: String, a2: &str, k: i32) -> SharedPtr<CObj> { let ok = ck_f32(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi230(k: i32) -> R<()> { let x = ffi::c_abi230(mk_f32((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi230(k), "C++ to Rust"); Ok(()) }
fn r_abi231(a0: f32, a1: String, a2: S3, k: i32) -> TrivA { let ok = ck_f32(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi231(k: i32) -> R<()> { let x = ffi::c_abi231(mk_f32((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi231(k), "C++ to Rust"); Ok(()) }
fn r_abi232(a0: f32, a1: S6, a2: u8, k: i32) -> Eu8 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi232(k: i32) -> R<()> { let x = ffi::c_abi232(mk_f32((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi232(k), "C++ to Rust"); Ok(()) }
fn r_abi233(a0: f32, a1: S6, a2: f64, k: i32) -> [u8; 4] { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi233(k: i32) -> R<()> { let x = ffi::c_abi233(mk_f32((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi233(k), "C++ to Rust"); Ok(()) }
fn r_abi234(a0: f32, a1: S6, a2: &str, k: i32) { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi234(k: i32) -> R<()> { let x = ffi::c_abi234(mk_f32((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi234(k), "C++ to Rust"); Ok(()) }
fn r_abi235(a0: f32, a1: S6, a2: S3, k: i32) -> String { let ok = ck_f32(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi235(k: i32) -> R<()> { let x = ffi::c_abi235(mk_f32((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi235(k), "C++ to Rust"); Ok(()) }
fn r_abi236(a0: S2, a1: u64, a2: u8, k: i32) -> S3 { let ok = ck_S2(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi236(k: i32) -> R<()> { let x = ffi::c_abi236(mk_S2((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi236(k), "C++ to Rust"); Ok(()) }
fn r_abi237(a0: S2, a1: u64, a2: f64, k: i32) -> S6 { let ok = ck_S2(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi237(k: i32) -> R<()> { let x = ffi::c_abi237(mk_S2((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi237(k), "C++ to Rust"); Ok(()) }
fn r_abi238(a0: S2, a1: u64, a2: &str, k: i32) -> Box<RObj> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi238(k: i32) -> R<()> { let x = ffi::c_abi238(mk_S2((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi238(k), "C++ to Rust"); Ok(()) }
fn r_abi239(a0: S2, a1: u64, a2: S3, k: i32) -> u8 { let ok = ck_S2(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi239(k: i32) -> R<()> { let x = ffi::c_abi239(mk_S2((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi239(k), "C++ to Rust"); Ok(()) }
fn r_abi240(a0: S2, a1: f64, a2: u8, k: i32) -> f64 { let ok = ck_S2(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi240(k: i32) -> R<()> { let x = ffi::c_abi240(mk_S2((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi240(k), "C++ to Rust"); Ok(()) }
fn r_abi241(a0: S2, a1: f64, a2: f64, k: i32) -> UniquePtr<CObj> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi241(k: i32) -> R<()> { let x = ffi::c_abi241(mk_S2((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi241(k), "C++ to Rust"); Ok(()) }
fn r_abi242(a0: S2, a1: f64, a2: &str, k: i32) -> Vec<u8> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi242(k: i32) -> R<()> { let x = ffi::c_abi242(mk_S2((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi242(k), "C++ to Rust"); Ok(()) }
fn r_abi243(a0: S2, a1: f64, a2: S3, k: i32) -> SharedPtr<CObj> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi243(k: i32) -> R<()> { let x = ffi::c_abi243(mk_S2((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi243(k), "C++ to Rust"); Ok(()) }
fn r_abi244(a0: S2, a1: S3, a2: u8, k: i32) -> TrivA { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi244(k: i32) -> R<()> { let x = ffi::c_abi244(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi244(k), "C++ to Rust"); Ok(()) }
fn r_abi245(a0: S2, a1: S3, a2: f64, k: i32) -> Eu8 { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi245(k: i32) -> R<()> { let x = ffi::c_abi245(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi245(k), "C++ to Rust"); Ok(()) }
fn r_abi246(a0: S2, a1: S3, a2: &str, k: i32) -> [u8; 4] { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi246(k: i32) -> R<()> { let x = ffi::c_abi246(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi246(k), "C++ to Rust"); Ok(()) }
fn r_abi247(a0: S2, a1: S3, a2: S3, k: i32) { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi247(k: i32) -> R<()> { let x = ffi::c_abi247(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi247(k), "C++ to Rust"); Ok(()) }
fn r_abi248(a0: S2, a1: String, a2: u8, k: i32) -> R<String> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi248(k: i32) -> R<()> { let x = ffi::c_abi248(mk_S2((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi248(k), "C++ to Rust"); Ok(()) }
fn r_abi249(a0: S2, a1: String, a2: f64, k: i32) -> R<S3> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi249(k: i32) -> R<()> { let x = ffi::c_abi249(mk_S2((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi249(k), "C++ to Rust"); Ok(()) }
fn r_abi250(a0: S2, a1: String, a2: &str, k: i32) -> R<S6> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi250(k: i32) -> R<()> { let x = ffi::c_abi250(mk_S2((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi250(k), "C++ to Rust"); Ok(()) }
fn r_abi251(a0: S2, a1: String, a2: S3, k: i32) -> R<Box<RObj>> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi251(k: i32) -> R<()> { let x = ffi::c_abi251(mk_S2((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi251(k), "C++ to Rust"); Ok(()) }
fn r_abi252(a0: S2, a1: S6, a2: u8, k: i32) -> R<u8> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi252(k: i32) -> R<()> { let x = ffi::c_abi252(mk_S2((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi252(k), "C++ to Rust"); Ok(()) }
fn r_abi253(a0: S2, a1: S6, a2: f64, k: i32) -> R<f64> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi253(k: i32) -> R<()> { let x = ffi::c_abi253(mk_S2((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi253(k), "C++ to Rust"); Ok(()) }
fn r_abi254(a0: S2, a1: S6, a2: &str, k: i32) -> R<UniquePtr<CObj>> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi254(k: i32) -> R<()> { let x = ffi::c_abi254(mk_S2((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi254(k), "C++ to Rust"); Ok(()) }
fn r_abi255(a0: S2, a1: S6, a2: S3, k: i32) -> R<Vec<u8>> { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi255(k: i32) -> R<()> { let x = ffi::c_abi255(mk_S2((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi255(k), "C++ to Rust"); Ok(()) }
fn r_abi256(a0: S6, a1: u64, a2: u8, k: i32) -> R<SharedPtr<CObj>> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi256(k: i32) -> R<()> { let x = ffi::c_abi256(mk_S6((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi256(k), "C++ to Rust"); Ok(()) }
fn r_abi257(a0: S6, a1: u64, a2: f64, k: i32) -> R<TrivA> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi257(k: i32) -> R<()> { let x = ffi::c_abi257(mk_S6((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi257(k), "C++ to Rust"); Ok(()) }
fn r_abi258(a0: S6, a1: u64, a2: &str, k: i32) -> R<Eu8> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi258(k: i32) -> R<()> { let x = ffi::c_abi258(mk_S6((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi258(k), "C++ to Rust"); Ok(()) }
fn r_abi259(a0: S6, a1: u64, a2: S3, k: i32) -> R<[u8; 4]> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi259(k: i32) -> R<()> { let x = ffi::c_abi259(mk_S6((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi259(k), "C++ to Rust"); Ok(()) }
fn r_abi260(a0: S6, a1: f64, a2: u8, k: i32) { let ok = ck_S6(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi260(k: i32) -> R<()> { let x = ffi::c_abi260(mk_S6((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi260(k), "C++ to Rust"); Ok(()) }
fn r_abi261(a0: S6, a1: f64, a2: f64, k: i32) -> String { let ok = ck_S6(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi261(k: i32) -> R<()> { let x = ffi::c_abi261(mk_S6((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi261(k), "C++ to Rust"); Ok(()) }
fn r_abi262(a0: S6, a1: f64, a2: &str, k: i32) -> S3 { let ok = ck_S6(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi262(k: i32) -> R<()> { let x = ffi::c_abi262(mk_S6((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi262(k), "C++ to Rust"); Ok(()) }
fn r_abi263(a0: S6, a1: f64, a2: S3, k: i32) -> S6 { let ok = ck_S6(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi263(k: i32) -> R<()> { let x = ffi::c_abi263(mk_S6((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi263(k), "C++ to Rust"); Ok(()) }
fn r_abi264(a0: S6, a1: S3, a2: u8, k: i32) -> Box<RObj> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi264(k: i32) -> R<()> { let x = ffi::c_abi264(mk_S6((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi264(k), "C++ to Rust"); Ok(()) }
fn r_abi265(a0: S6, a1: S3, a2: f64, k: i32) -> u8 { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi265(k: i32) -> R<()> { let x = ffi::c_abi265(mk_S6((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi265(k), "C++ to Rust"); Ok(()) }
fn r_abi266(a0: S6, a1: S3, a2: &str, k: i32) -> f64 { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi266(k: i32) -> R<()> { let x = ffi::c_abi266(mk_S6((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi266(k), "C++ to Rust"); Ok(()) }
fn r_abi267(a0: S6, a1: S3, a2: S3, k: i32) -> UniquePtr<CObj> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi267(k: i32) -> R<()> { let x = ffi::c_abi267(mk_S6((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi267(k), "C++ to Rust"); Ok(()) }
fn r_abi268(a0: S6, a1: String, a2: u8, k: i32) -> Vec<u8> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi268(k: i32) -> R<()> { let x = ffi::c_abi268(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi268(k), "C++ to Rust"); Ok(()) }
fn r_abi269(a0: S6, a1: String, a2: f64, k: i32) -> SharedPtr<CObj> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi269(k: i32) -> R<()> { let x = ffi::c_abi269(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi269(k), "C++ to Rust"); Ok(()) }
fn r_abi270(a0: S6, a1: String, a2: &str, k: i32) -> TrivA { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi270(k: i32) -> R<()> { let x = ffi::c_abi270(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi270(k), "C++ to Rust"); Ok(()) }
fn r_abi271(a0: S6, a1: String, a2: S3, k: i32) -> Eu8 { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi271(k: i32) -> R<()> { let x = ffi::c_abi271(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi271(k), "C++ to Rust"); Ok(()) }
fn r_abi272(a0: S6, a1: S6, a2: u8, k: i32) -> [u8; 4] { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi272(k: i32) -> R<()> { let x = ffi::c_abi272(mk_S6((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi272(k), "C++ to Rust"); Ok(()) }
fn r_abi273(a0: S6, a1: S6, a2: f64, k: i32) { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi273(k: i32) -> R<()> { let x = ffi::c_abi273(mk_S6((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi273(k), "C++ to Rust"); Ok(()) }
fn r_abi274(a0: S6, a1: S6, a2: &str, k: i32) -> String { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi274(k: i32) -> R<()> { let x = ffi::c_abi274(mk_S6((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi274(k), "C++ to Rust"); Ok(()) }
fn r_abi275(a0: S6, a1: S6, a2: S3, k: i32) -> S3 { let ok = ck_S6(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi275(k: i32) -> R<()> { let x = ffi::c_abi275(mk_S6((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi275(k), "C++ to Rust"); Ok(()) }
fn r_abi276(a0: &str, a1: u64, a2: u8, k: i32) -> S6 { let ok = ck_str(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi276(k: i32) -> R<()> { let x = ffi::c_abi276(mk_str((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi276(k), "C++ to Rust"); Ok(()) }
fn r_abi277(a0: &str, a1: u64, a2: f64, k: i32) -> Box<RObj> { let ok = ck_str(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi277(k: i32) -> R<()> { let x = ffi::c_abi277(mk_str((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi277(k), "C++ to Rust"); Ok(()) }
fn r_abi278(a0: &str, a1: u64, a2: &str, k: i32) -> u8 { let ok = ck_str(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi278(k: i32) -> R<()> { let x = ffi::c_abi278(mk_str((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi278(k), "C++ to Rust"); Ok(()) }
fn r_abi279(a0: &str, a1: u64, a2: S3, k: i32) -> f64 { let ok = ck_str(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi279(k: i32) -> R<()> { let x = ffi::c_abi279(mk_str((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi279(k), "C++ to Rust"); Ok(()) }
fn r_abi280(a0: &str, a1: f64, a2: u8, k: i32) -> UniquePtr<CObj> { let ok = ck_str(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi280(k: i32) -> R<()> { let x = ffi::c_abi280(mk_str((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi280(k), "C++ to Rust"); Ok(()) }
fn r_abi281(a0: &str, a1: f64, a2: f64, k: i32) -> Vec<u8> { let ok = ck_str(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi281(k: i32) -> R<()> { let x = ffi::c_abi281(mk_str((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi281(k), "C++ to Rust"); Ok(()) }
fn r_abi282(a0: &str, a1: f64, a2: &str, k: i32) -> SharedPtr<CObj> { let ok = ck_str(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi282(k: i32) -> R<()> { let x = ffi::c_abi282(mk_str((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi282(k), "C++ to Rust"); Ok(()) }
fn r_abi283(a0: &str, a1: f64, a2: S3, k: i32) -> TrivA { let ok = ck_str(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi283(k: i32) -> R<()> { let x = ffi::c_abi283(mk_str((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi283(k), "C++ to Rust"); Ok(()) }
fn r_abi284(a0: &str, a1: S3, a2: u8, k: i32) -> Eu8 { let ok = ck_str(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi284(k: i32) -> R<()> { let x = ffi::c_abi284(mk_str((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi284(k), "C++ to Rust"); Ok(()) }
fn r_abi285(a0: &str, a1: S3, a2: f64, k: i32) -> [u8; 4] { let ok = ck_str(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi285(k: i32) -> R<()> { let x = ffi::c_abi285(mk_str((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi285(k), "C++ to Rust"); Ok(()) }
fn r_abi286(a0: &str, a1: S3, a2: &str, k: i32) { let ok = ck_str(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi286(k: i32) -> R<()> { let x = ffi::c_abi286(mk_str((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi286(k), "C++ to Rust"); Ok(()) }
fn r_abi287(a0: &str, a1: S3, a2: S3, k: i32) -> R<String> { let ok = ck_str(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi287(k: i32) -> R<()> { let x = ffi::c_abi287(mk_str((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi287(k), "C++ to Rust"); Ok(()) }
fn r_abi288(a0: &str, a1: String, a2: u8, k: i32) -> R<S3> { let ok = ck_str(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi288(k: i32) -> R<()> { let x = ffi::c_abi288(mk_str((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi288(k), "C++ to Rust"); Ok(()) }
fn r_abi289(a0: &str, a1: String, a2: f64, k: i32) -> R<S6> { let ok = ck_str(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi289(k: i32) -> R<()> { let x = ffi::c_abi289(mk_str((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi289(k), "C++ to Rust"); Ok(()) }
fn r_abi290(a0: &str, a1: String, a2: &str, k: i32) -> R<Box<RObj>> { let ok = ck_str(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi290(k: i32) -> R<()> { let x = ffi::c_abi290(mk_str((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi290(k), "C++ to Rust"); Ok(()) }
fn r_abi291(a0: &str, a1: String, a2: S3, k: i32) -> R<u8> { let ok = ck_str(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi291(k: i32) -> R<()> { let x = ffi::c_abi291(mk_str((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi291(k), "C++ to Rust"); Ok(()) }
fn r_abi292(a0: &str, a1: S6, a2: u8, k: i32) -> R<f64> { let ok = ck_str(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi292(k: i32) -> R<()> { let x = ffi::c_abi292(mk_str((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi292(k), "C++ to Rust"); Ok(()) }
fn r_abi293(a0: &str, a1: S6, a2: f64, k: i32) -> R<UniquePtr<CObj>> { let ok = ck_str(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi293(k: i32) -> R<()> { let x = ffi::c_abi293(mk_str((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi293(k), "C++ to Rust"); Ok(()) }
fn r_abi294(a0: &str, a1: S6, a2: &str, k: i32) -> R<Vec<u8>> { let ok = ck_str(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi294(k: i32) -> R<()> { let x = ffi::c_abi294(mk_str((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi294(k), "C++ to Rust"); Ok(()) }
fn r_abi295(a0: &str, a1: S6, a2: S3, k: i32) -> R<SharedPtr<CObj>> { let ok = ck_str(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi295(k: i32) -> R<()> { let x = ffi::c_abi295(mk_str((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi295(k), "C++ to Rust"); Ok(()) }
fn r_abi296(a0: S3, a1: u64, a2: u8, k: i32) -> R<TrivA> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi296(k: i32) -> R<()> { let x = ffi::c_abi296(mk_S3((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi296(k), "C++ to Rust"); Ok(()) }
fn r_abi297(a0: S3, a1: u64, a2: f64, k: i32) -> R<Eu8> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi297(k: i32) -> R<()> { let x = ffi::c_abi297(mk_S3((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi297(k), "C++ to Rust"); Ok(()) }
fn r_abi298(a0: S3, a1: u64, a2: &str, k: i32) -> R<[u8; 4]> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi298(k: i32) -> R<()> { let x = ffi::c_abi298(mk_S3((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi298(k), "C++ to Rust"); Ok(()) }
fn r_abi299(a0: S3, a1: u64, a2: S3, k: i32) { let ok = ck_S3(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi299(k: i32) -> R<()> { let x = ffi::c_abi299(mk_S3((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi299(k), "C++ to Rust"); Ok(()) }
fn r_abi300(a0: S3, a1: f64, a2: u8, k: i32) -> String { let ok = ck_S3(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi300(k: i32) -> R<()> { let x = ffi::c_abi300(mk_S3((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi300(k), "C++ to Rust"); Ok(()) }
fn r_abi301(a0: S3, a1: f64, a2: f64, k: i32) -> S3 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi301(k: i32) -> R<()> { let x = ffi::c_abi301(mk_S3((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi301(k), "C++ to Rust"); Ok(()) }
fn r_abi302(a0: S3, a1: f64, a2: &str, k: i32) -> S6 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi302(k: i32) -> R<()> { let x = ffi::c_abi302(mk_S3((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi302(k), "C++ to Rust"); Ok(()) }
fn r_abi303(a0: S3, a1: f64, a2: S3, k: i32) -> Box<RObj> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi303(k: i32) -> R<()> { let x = ffi::c_abi303(mk_S3((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi303(k), "C++ to Rust"); Ok(()) }
fn r_abi304(a0: S3, a1: S3, a2: u8, k: i32) -> u8 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi304(k: i32) -> R<()> { let x = ffi::c_abi304(mk_S3((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi304(k), "C++ to Rust"); Ok(()) }
fn r_abi305(a0: S3, a1: S3, a2: f64, k: i32) -> f64 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi305(k: i32) -> R<()> { let x = ffi::c_abi305(mk_S3((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi305(k), "C++ to Rust"); Ok(()) }
fn r_abi306(a0: S3, a1: S3, a2: &str, k: i32) -> UniquePtr<CObj> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi306(k: i32) -> R<()> { let x = ffi::c_abi306(mk_S3((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi306(k), "C++ to Rust"); Ok(()) }
fn r_abi307(a0: S3, a1: S3, a2: S3, k: i32) -> Vec<u8> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi307(k: i32) -> R<()> { let x = ffi::c_abi307(mk_S3((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi307(k), "C++ to Rust"); Ok(()) }
fn r_abi308(a0: S3, a1: String, a2: u8, k: i32) -> SharedPtr<CObj> { let ok = ck_S3(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi308(k: i32) -> R<()> { let x = ffi::c_abi308(mk_S3((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi308(k), "C++ to Rust"); Ok(()) }
fn r_abi309(a0: S3, a1: String, a2: f64, k: i32) -> TrivA { let ok = ck_S3(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi309(k: i32) -> R<()> { let x = ffi::c_abi309(mk_S3((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi309(k), "C++ to Rust"); Ok(()) }
fn r_abi310(a0: S3, a1: String, a2: &str, k: i32) -> Eu8 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi310(k: i32) -> R<()> { let x = ffi::c_abi310(mk_S3((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi310(k), "C++ to Rust"); Ok(()) }
fn r_abi311(a0: S3, a1: String, a2: S3, k: i32) -> [u8; 4] { let ok = ck_S3(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi311(k: i32) -> R<()> { let x = ffi::c_abi311(mk_S3((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi311(k), "C++ to Rust"); Ok(()) }
fn r_abi312(a0: S3, a1: S6, a2: u8, k: i32) { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi312(k: i32) -> R<()> { let x = ffi::c_abi312(mk_S3((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi312(k), "C++ to Rust"); Ok(()) }
fn r_abi313(a0: S3, a1: S6, a2: f64, k: i32) -> String { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_f64(&a2, (k + 2) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi313(k: i32) -> R<()> { let x = ffi::c_abi313(mk_S3((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi313(k), "C++ to Rust"); Ok(()) }
fn r_abi314(a0: S3, a1: S6, a2: &str, k: i32) -> S3 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi314(k: i32) -> R<()> { let x = ffi::c_abi314(mk_S3((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi314(k), "C++ to Rust"); Ok(()) }
fn r_abi315(a0: S3, a1: S6, a2: S3, k: i32) -> S6 { let ok = ck_S3(&a0, (k + 0) & 3) && ck_S6(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi315(k: i32) -> R<()> { let x = ffi::c_abi315(mk_S3((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi315(k), "C++ to Rust"); Ok(()) }
fn r_abi316(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, a6: S6, a7: String, a8: &str, a9: Box<RObj>, a10: UniquePtr<CObj>, a11: &[u16], a12: bool, a13: Eu8, a14: TrivA, a15: [u8; 4], a16: &S2, a17: SharedPtr<CObj>, a18: WeakPtr<CObj>, a19: Vec<u8>, a20: &RObj, a21: &mut S7, a22: i8, a23: c_char, k: i32) -> Box<RObj> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f32(&a2, (k + 2) & 3) && ck_f64(&a3, (k + 3) & 3) && ck_S2(&a4, (k + 4) & 3) && ck_S3(&a5, (k + 5) & 3) && ck_S6(&a6, (k + 6) & 3) && ck_String(&a7, (k + 7) & 3) && ck_str(&a8, (k + 8) & 3) && ck_Box_RObj(&a9, (k + 9) & 3) && ck_UniquePtr_CObj(&a10, (k + 10) & 3) && ck_sl_u16(&a11, (k + 11) & 3) && ck_bool(&a12, (k + 12) & 3) && ck_Eu8(&a13, (k + 13) & 3) && ck_TrivA(&a14, (k + 14) & 3) && ck_arr4_u8(&a15, (k + 15) & 3) && ck_ref_S2(&a16, (k + 16) & 3) && ck_SharedPtr_CObj(&a17, (k + 17) & 3) && ck_WeakPtr_CObj(&a18, (k + 18) & 3) && ck_Vec_u8(&a19, (k + 19) & 3) && ck_ref_RObj(&a20, (k + 20) & 3) && ck_mut_S7(&a21, (k + 21) & 3) && ck_i8(&a22, (k + 22) & 3) && ck_c_char(&a23, (k + 23) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi316(k: i32) -> R<()> { let x = ffi::c_abi316(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), mk_S2((k + 4) & 3), mk_S3((k + 5) & 3), mk_S6((k + 6) & 3), mk_String((k + 7) & 3), mk_str((k + 8) & 3), mk_Box_RObj((k + 9) & 3), mk_UniquePtr_CObj((k + 10) & 3), mk_sl_u16((k + 11) & 3), mk_bool((k + 12) & 3), mk_Eu8((k + 13) & 3), mk_TrivA((k + 14) & 3), mk_arr4_u8((k + 15) & 3), mk_ref_S2((k + 16) & 3), mk_SharedPtr_CObj((k + 17) & 3), mk_WeakPtr_CObj((k + 18) & 3), mk_Vec_u8((k + 19) & 3), mk_ref_RObj((k + 20) & 3), mk_mut_S7((k + 21) & 3), mk_i8((k + 22) & 3), mk_c_char((k + 23) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi316(k), "C++ to Rust"); Ok(()) }
fn r_abi317(a0: f32, a1: f64, a2: S2, a3: S3, a4: S6, a5: String, a6: &str, a7: Box<RObj>, a8: UniquePtr<CObj>, a9: &[u16], a10: bool, a11: Eu8, a12: TrivA, a13: [u8; 4], a14: &S2, a15: SharedPtr<CObj>, a16: WeakPtr<CObj>, a17: Vec<u8>, a18: &RObj, a19: &mut S7, a20: i8, a21: c_char, a22: u8, a23: u64, k: i32) -> u8 { let ok = ck_f32(&a0, (k + 0) & 3) && ck_f64(&a1, (k + 1) & 3) && ck_S2(&a2, (k + 2) & 3) && ck_S3(&a3, (k + 3) & 3) && ck_S6(&a4, (k + 4) & 3) && ck_String(&a5, (k + 5) & 3) && ck_str(&a6, (k + 6) & 3) && ck_Box_RObj(&a7, (k + 7) & 3) && ck_UniquePtr_CObj(&a8, (k + 8) & 3) && ck_sl_u16(&a9, (k + 9) & 3) && ck_bool(&a10, (k + 10) & 3) && ck_Eu8(&a11, (k + 11) & 3) && ck_TrivA(&a12, (k + 12) & 3) && ck_arr4_u8(&a13, (k + 13) & 3) && ck_ref_S2(&a14, (k + 14) & 3) && ck_SharedPtr_CObj(&a15, (k + 15) & 3) && ck_WeakPtr_CObj(&a16, (k + 16) & 3) && ck_Vec_u8(&a17, (k + 17) & 3) && ck_ref_RObj(&a18, (k + 18) & 3) && ck_mut_S7(&a19, (k + 19) & 3) && ck_i8(&a20, (k + 20) & 3) && ck_c_char(&a21, (k + 21) & 3) && ck_u8(&a22, (k + 22) & 3) && ck_u64(&a23, (k + 23) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi317(k: i32) -> R<()> { let x = ffi::c_abi317(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), mk_S2((k + 2) & 3), mk_S3((k + 3) & 3), mk_S6((k + 4) & 3), mk_String((k + 5) & 3), mk_str((k + 6) & 3), mk_Box_RObj((k + 7) & 3), mk_UniquePtr_CObj((k + 8) & 3), mk_sl_u16((k + 9) & 3), mk_bool((k + 10) & 3), mk_Eu8((k + 11) & 3), mk_TrivA((k + 12) & 3), mk_arr4_u8((k + 13) & 3), mk_ref_S2((k + 14) & 3), mk_SharedPtr_CObj((k + 15) & 3), mk_WeakPtr_CObj((k + 16) & 3), mk_Vec_u8((k + 17) & 3), mk_ref_RObj((k + 18) & 3), mk_mut_S7((k + 19) & 3), mk_i8((k + 20) & 3), mk_c_char((k + 21) & 3), mk_u8((k + 22) & 3), mk_u64((k + 23) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi317(k), "C++ to Rust"); Ok(()) }
fn r_abi318(a0: S2, a1: S3, a2: S6, a3: String, a4: &str, a5: Box<RObj>, a6: UniquePtr<CObj>, a7: &[u16], a8: bool, a9: Eu8, a10: TrivA, a11: [u8; 4], a12: &S2, a13: SharedPtr<CObj>, a14: WeakPtr<CObj>, a15: Vec<u8>, a16: &RObj, a17: &mut S7, a18: i8, a19: c_char, a20: u8, a21: u64, a22: f32, a23: f64, k: i32) -> f64 { let ok = ck_S2(&a0, (k + 0) & 3) && ck_S3(&a1, (k + 1) & 3) && ck_S6(&a2, (k + 2) & 3) && ck_String(&a3, (k + 3) & 3) && ck_str(&a4, (k + 4) & 3) && ck_Box_RObj(&a5, (k + 5) & 3) && ck_UniquePtr_CObj(&a6, (k + 6) & 3) && ck_sl_u16(&a7, (k + 7) & 3) && ck_bool(&a8, (k + 8) & 3) && ck_Eu8(&a9, (k + 9) & 3) && ck_TrivA(&a10, (k + 10) & 3) && ck_arr4_u8(&a11, (k + 11) & 3) && ck_ref_S2(&a12, (k + 12) & 3) && ck_SharedPtr_CObj(&a13, (k + 13) & 3) && ck_WeakPtr_CObj(&a14, (k + 14) & 3) && ck_Vec_u8(&a15, (k + 15) & 3) && ck_ref_RObj(&a16, (k + 16) & 3) && ck_mut_S7(&a17, (k + 17) & 3) && ck_i8(&a18, (k + 18) & 3) && ck_c_char(&a19, (k + 19) & 3) && ck_u8(&a20, (k + 20) & 3) && ck_u64(&a21, (k + 21) & 3) && ck_f32(&a22, (k + 22) & 3) && ck_f64(&a23, (k + 23) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi318(k: i32) -> R<()> { let x = ffi::c_abi318(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), mk_S6((k + 2) & 3), mk_String((k + 3) & 3), mk_str((k + 4) & 3), mk_Box_RObj((k + 5) & 3), mk_UniquePtr_CObj((k + 6) & 3), mk_sl_u16((k + 7) & 3), mk_bool((k + 8) & 3), mk_Eu8((k + 9) & 3), mk_TrivA((k + 10) & 3), mk_arr4_u8((k + 11) & 3), mk_ref_S2((k + 12) & 3), mk_SharedPtr_CObj((k + 13) & 3), mk_WeakPtr_CObj((k + 14) & 3), mk_Vec_u8((k + 15) & 3), mk_ref_RObj((k + 16) & 3), mk_mut_S7((k + 17) & 3), mk_i8((k + 18) & 3), mk_c_char((k + 19) & 3), mk_u8((k + 20) & 3), mk_u64((k + 21) & 3), mk_f32((k + 22) & 3), mk_f64((k + 23) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi318(k), "C++ to Rust"); Ok(()) }
fn r_abi319(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], a6: bool, a7: Eu8, a8: TrivA, a9: [u8; 4], a10: &S2, a11: SharedPtr<CObj>, a12: WeakPtr<CObj>, a13: Vec<u8>, a14: &RObj, a15: &mut S7, a16: i8, a17: c_char, a18: u8, a19: u64, a20: f32, a21: f64, a22: S2, a23: S3, k: i32) -> UniquePtr<CObj> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3) && ck_Box_RObj(&a3, (k + 3) & 3) && ck_UniquePtr_CObj(&a4, (k + 4) & 3) && ck_sl_u16(&a5, (k + 5) & 3) && ck_bool(&a6, (k + 6) & 3) && ck_Eu8(&a7, (k + 7) & 3) && ck_TrivA(&a8, (k + 8) & 3) && ck_arr4_u8(&a9, (k + 9) & 3) && ck_ref_S2(&a10, (k + 10) & 3) && ck_SharedPtr_CObj(&a11, (k + 11) & 3) && ck_WeakPtr_CObj(&a12, (k + 12) & 3) && ck_Vec_u8(&a13, (k + 13) & 3) && ck_ref_RObj(&a14, (k + 14) & 3) && ck_mut_S7(&a15, (k + 15) & 3) && ck_i8(&a16, (k + 16) & 3) && ck_c_char(&a17, (k + 17) & 3) && ck_u8(&a18, (k + 18) & 3) && ck_u64(&a19, (k + 19) & 3) && ck_f32(&a20, (k + 20) & 3) && ck_f64(&a21, (k + 21) & 3) && ck_S2(&a22, (k + 22) & 3) && ck_S3(&a23, (k + 23) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi319(k: i32) -> R<()> { let x = ffi::c_abi319(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), mk_UniquePtr_CObj((k + 4) & 3), mk_sl_u16((k + 5) & 3), mk_bool((k + 6) & 3), mk_Eu8((k + 7) & 3), mk_TrivA((k + 8) & 3), mk_arr4_u8((k + 9) & 3), mk_ref_S2((k + 10) & 3), mk_SharedPtr_CObj((k + 11) & 3), mk_WeakPtr_CObj((k + 12) & 3), mk_Vec_u8((k + 13) & 3), mk_ref_RObj((k + 14) & 3), mk_mut_S7((k + 15) & 3), mk_i8((k + 16) & 3), mk_c_char((k + 17) & 3), mk_u8((k + 18) & 3), mk_u64((k + 19) & 3), mk_f32((k + 20) & 3), mk_f64((k + 21) & 3), mk_S2((k + 22) & 3), mk_S3((k + 23) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi319(k), "C++ to Rust"); Ok(()) }
fn r_abi320(a0: &str, a1: Box<RObj>, a2: UniquePtr<CObj>, a3: &[u16], a4: bool, a5: Eu8, a6: TrivA, a7: [u8; 4], a8: &S2, a9: SharedPtr<CObj>, a10: WeakPtr<CObj>, a11: Vec<u8>, a12: &RObj, a13: &mut S7, a14: i8, a15: c_char, a16: u8, a17: u64, a18: f32, a19: f64, a20: S2, a21: S3, a22: S6, a23: String, k: i32) -> Vec<u8> { let ok = ck_str(&a0, (k + 0) & 3) && ck_Box_RObj(&a1, (k + 1) & 3) && ck_UniquePtr_CObj(&a2, (k + 2) & 3) && ck_sl_u16(&a3, (k + 3) & 3) && ck_bool(&a4, (k + 4) & 3) && ck_Eu8(&a5, (k + 5) & 3) && ck_TrivA(&a6, (k + 6) & 3) && ck_arr4_u8(&a7, (k + 7) & 3) && ck_ref_S2(&a8, (k + 8) & 3) && ck_SharedPtr_CObj(&a9, (k + 9) & 3) && ck_WeakPtr_CObj(&a10, (k + 10) & 3) && ck_Vec_u8(&a11, (k + 11) & 3) && ck_ref_RObj(&a12, (k + 12) & 3) && ck_mut_S7(&a13, (k + 13) & 3) && ck_i8(&a14, (k + 14) & 3) && ck_c_char(&a15, (k + 15) & 3) && ck_u8(&a16, (k + 16) & 3) && ck_u64(&a17, (k + 17) & 3) && ck_f32(&a18, (k + 18) & 3) && ck_f64(&a19, (k + 19) & 3) && ck_S2(&a20, (k + 20) & 3) && ck_S3(&a21, (k + 21) & 3) && ck_S6(&a22, (k + 22) & 3) && ck_String(&a23, (k + 23) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi320(k: i32) -> R<()> { let x = ffi::c_abi320(mk_str((k + 0) & 3), mk_Box_RObj((k + 1) & 3), mk_UniquePtr_CObj((k + 2) & 3), mk_sl_u16((k + 3) & 3), mk_bool((k + 4) & 3), mk_Eu8((k + 5) & 3), mk_TrivA((k + 6) & 3), mk_arr4_u8((k + 7) & 3), mk_ref_S2((k + 8) & 3), mk_SharedPtr_CObj((k + 9) & 3), mk_WeakPtr_CObj((k + 10) & 3), mk_Vec_u8((k + 11) & 3), mk_ref_RObj((k + 12) & 3), mk_mut_S7((k + 13) & 3), mk_i8((k + 14) & 3), mk_c_char((k + 15) & 3), mk_u8((k + 16) & 3), mk_u64((k + 17) & 3), mk_f32((k + 18) & 3), mk_f64((k + 19) & 3), mk_S2((k + 20) & 3), mk_S3((k + 21) & 3), mk_S6((k + 22) & 3), mk_String((k + 23) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi320(k), "C++ to Rust"); Ok(()) }
fn r_abi321(a0: UniquePtr<CObj>, a1: &[u16], a2: bool, a3: Eu8, a4: TrivA, a5: [u8; 4], a6: &S2, a7: SharedPtr<CObj>, a8: WeakPtr<CObj>, a9: Vec<u8>, a10: &RObj, a11: &mut S7, a12: i8, a13: c_char, a14: u8, a15: u64, a16: f32, a17: f64, a18: S2, a19: S3, a20: S6, a21: String, a22: &str, a23: Box<RObj>, k: i32) -> SharedPtr<CObj> { let ok = ck_UniquePtr_CObj(&a0, (k + 0) & 3) && ck_sl_u16(&a1, (k + 1) & 3) && ck_bool(&a2, (k + 2) & 3) && ck_Eu8(&a3, (k + 3) & 3) && ck_TrivA(&a4, (k + 4) & 3) && ck_arr4_u8(&a5, (k + 5) & 3) && ck_ref_S2(&a6, (k + 6) & 3) && ck_SharedPtr_CObj(&a7, (k + 7) & 3) && ck_WeakPtr_CObj(&a8, (k + 8) & 3) && ck_Vec_u8(&a9, (k + 9) & 3) && ck_ref_RObj(&a10, (k + 10) & 3) && ck_mut_S7(&a11, (k + 11) & 3) && ck_i8(&a12, (k + 12) & 3) && ck_c_char(&a13, (k + 13) & 3) && ck_u8(&a14, (k + 14) & 3) && ck_u64(&a15, (k + 15) & 3) && ck_f32(&a16, (k + 16) & 3) && ck_f64(&a17, (k + 17) & 3) && ck_S2(&a18, (k + 18) & 3) && ck_S3(&a19, (k + 19) & 3) && ck_S6(&a20, (k + 20) & 3) && ck_String(&a21, (k + 21) & 3) && ck_str(&a22, (k + 22) & 3) && ck_Box_RObj(&a23, (k + 23) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi321(k: i32) -> R<()> { let x = ffi::c_abi321(mk_UniquePtr_CObj((k + 0) & 3), mk_sl_u16((k + 1) & 3), mk_bool((k + 2) & 3), mk_Eu8((k + 3) & 3), mk_TrivA((k + 4) & 3), mk_arr4_u8((k + 5) & 3), mk_ref_S2((k + 6) & 3), mk_SharedPtr_CObj((k + 7) & 3), mk_WeakPtr_CObj((k + 8) & 3), mk_Vec_u8((k + 9) & 3), mk_ref_RObj((k + 10) & 3), mk_mut_S7((k + 11) & 3), mk_i8((k + 12) & 3), mk_c_char((k + 13) & 3), mk_u8((k + 14) & 3), mk_u64((k + 15) & 3), mk_f32((k + 16) & 3), mk_f64((k + 17) & 3), mk_S2((k + 18) & 3), mk_S3((k + 19) & 3), mk_S6((k + 20) & 3), mk_String((k + 21) & 3), mk_str((k + 22) & 3), mk_Box_RObj((k + 23) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi321(k), "C++ to Rust"); Ok(()) }
fn r_abi322(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, a6: WeakPtr<CObj>, a7: Vec<u8>, a8: &RObj, a9: &mut S7, a10: i8, a11: c_char, a12: u8, a13: u64, a14: f32, a15: f64, a16: S2, a17: S3, a18: S6, a19: String, a20: &str, a21: Box<RObj>, a22: UniquePtr<CObj>, a23: &[u16], k: i32) -> TrivA { let ok = ck_bool(&a0, (k + 0) & 3) && ck_Eu8(&a1, (k + 1) & 3) && ck_TrivA(&a2, (k + 2) & 3) && ck_arr4_u8(&a3, (k + 3) & 3) && ck_ref_S2(&a4, (k + 4) & 3) && ck_SharedPtr_CObj(&a5, (k + 5) & 3) && ck_WeakPtr_CObj(&a6, (k + 6) & 3) && ck_Vec_u8(&a7, (k + 7) & 3) && ck_ref_RObj(&a8, (k + 8) & 3) && ck_mut_S7(&a9, (k + 9) & 3) && ck_i8(&a10, (k + 10) & 3) && ck_c_char(&a11, (k + 11) & 3) && ck_u8(&a12, (k + 12) & 3) && ck_u64(&a13, (k + 13) & 3) && ck_f32(&a14, (k + 14) & 3) && ck_f64(&a15, (k + 15) & 3) && ck_S2(&a16, (k + 16) & 3) && ck_S3(&a17, (k + 17) & 3) && ck_S6(&a18, (k + 18) & 3) && ck_String(&a19, (k + 19) & 3) && ck_str(&a20, (k + 20) & 3) && ck_Box_RObj(&a21, (k + 21) & 3) && ck_UniquePtr_CObj(&a22, (k + 22) & 3) && ck_sl_u16(&a23, (k + 23) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi322(k: i32) -> R<()> { let x = ffi::c_abi322(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), mk_ref_S2((k + 4) & 3), mk_SharedPtr_CObj((k + 5) & 3), mk_WeakPtr_CObj((k + 6) & 3), mk_Vec_u8((k + 7) & 3), mk_ref_RObj((k + 8) & 3), mk_mut_S7((k + 9) & 3), mk_i8((k + 10) & 3), mk_c_char((k + 11) & 3), mk_u8((k + 12) & 3), mk_u64((k + 13) & 3), mk_f32((k + 14) & 3), mk_f64((k + 15) & 3), mk_S2((k + 16) & 3), mk_S3((k + 17) & 3), mk_S6((k + 18) & 3), mk_String((k + 19) & 3), mk_str((k + 20) & 3), mk_Box_RObj((k + 21) & 3), mk_UniquePtr_CObj((k + 22) & 3), mk_sl_u16((k + 23) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi322(k), "C++ to Rust"); Ok(()) }
fn r_abi323(a0: TrivA, a1: [u8; 4], a2: &S2, a3: SharedPtr<CObj>, a4: WeakPtr<CObj>, a5: Vec<u8>, a6: &RObj, a7: &mut S7, a8: i8, a9: c_char, a10: u8, a11: u64, a12: f32, a13: f64, a14: S2, a15: S3, a16: S6, a17: String, a18: &str, a19: Box<RObj>, a20: UniquePtr<CObj>, a21: &[u16], a22: bool, a23: Eu8, k: i32) -> Eu8 { let ok = ck_TrivA(&a0, (k + 0) & 3) && ck_arr4_u8(&a1, (k + 1) & 3) && ck_ref_S2(&a2, (k + 2) & 3) && ck_SharedPtr_CObj(&a3, (k + 3) & 3) && ck_WeakPtr_CObj(&a4, (k + 4) & 3) && ck_Vec_u8(&a5, (k + 5) & 3) && ck_ref_RObj(&a6, (k + 6) & 3) && ck_mut_S7(&a7, (k + 7) & 3) && ck_i8(&a8, (k + 8) & 3) && ck_c_char(&a9, (k + 9) & 3) && ck_u8(&a10, (k + 10) & 3) && ck_u64(&a11, (k + 11) & 3) && ck_f32(&a12, (k + 12) & 3) && ck_f64(&a13, (k + 13) & 3) && ck_S2(&a14, (k + 14) & 3) && ck_S3(&a15, (k + 15) & 3) && ck_S6(&a16, (k + 16) & 3) && ck_String(&a17, (k + 17) & 3) && ck_str(&a18, (k + 18) & 3) && ck_Box_RObj(&a19, (k + 19) & 3) && ck_UniquePtr_CObj(&a20, (k + 20) & 3) && ck_sl_u16(&a21, (k + 21) & 3) && ck_bool(&a22, (k + 22) & 3) && ck_Eu8(&a23, (k + 23) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi323(k: i32) -> R<()> { let x = ffi::c_abi323(mk_TrivA((k + 0) & 3), mk_arr4_u8((k + 1) & 3), mk_ref_S2((k + 2) & 3), mk_SharedPtr_CObj((k + 3) & 3), mk_WeakPtr_CObj((k + 4) & 3), mk_Vec_u8((k + 5) & 3), mk_ref_RObj((k + 6) & 3), mk_mut_S7((k + 7) & 3), mk_i8((k + 8) & 3), mk_c_char((k + 9) & 3), mk_u8((k + 10) & 3), mk_u64((k + 11) & 3), mk_f32((k + 12) & 3), mk_f64((k + 13) & 3), mk_S2((k + 14) & 3), mk_S3((k + 15) & 3), mk_S6((k + 16) & 3), mk_String((k + 17) & 3), mk_str((k + 18) & 3), mk_Box_RObj((k + 19) & 3), mk_UniquePtr_CObj((k + 20) & 3), mk_sl_u16((k + 21) & 3), mk_bool((k + 22) & 3), mk_Eu8((k + 23) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi323(k), "C++ to Rust"); Ok(()) }
fn r_abi324(a0: &S2, a1: SharedPtr<CObj>, a2: WeakPtr<CObj>, a3: Vec<u8>, a4: &RObj, a5: &mut S7, a6: i8, a7: c_char, a8: u8, a9: u64, a10: f32, a11: f64, a12: S2, a13: S3, a14: S6, a15: String, a16: &str, a17: Box<RObj>, a18: UniquePtr<CObj>, a19: &[u16], a20: bool, a21: Eu8, a22: TrivA, a23: [u8; 4], k: i32) -> [u8; 4] { let ok = ck_ref_S2(&a0, (k + 0) & 3) && ck_SharedPtr_CObj(&a1, (k + 1) & 3) && ck_WeakPtr_CObj(&a2, (k + 2) & 3) && ck_Vec_u8(&a3, (k + 3) & 3) && ck_ref_RObj(&a4, (k + 4) & 3) && ck_mut_S7(&a5, (k + 5) & 3) && ck_i8(&a6, (k + 6) & 3) && ck_c_char(&a7, (k + 7) & 3) && ck_u8(&a8, (k + 8) & 3) && ck_u64(&a9, (k + 9) & 3) && ck_f32(&a10, (k + 10) & 3) && ck_f64(&a11, (k + 11) & 3) && ck_S2(&a12, (k + 12) & 3) && ck_S3(&a13, (k + 13) & 3) && ck_S6(&a14, (k + 14) & 3) && ck_String(&a15, (k + 15) & 3) && ck_str(&a16, (k + 16) & 3) && ck_Box_RObj(&a17, (k + 17) & 3) && ck_UniquePtr_CObj(&a18, (k + 18) & 3) && ck_sl_u16(&a19, (k + 19) & 3) && ck_bool(&a20, (k + 20) & 3) && ck_Eu8(&a21, (k + 21) & 3) && ck_TrivA(&a22, (k + 22) & 3) && ck_arr4_u8(&a23, (k + 23) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi324(k: i32) -> R<()> { let x = ffi::c_abi324(mk_ref_S2((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), mk_WeakPtr_CObj((k + 2) & 3), mk_Vec_u8((k + 3) & 3), mk_ref_RObj((k + 4) & 3), mk_mut_S7((k + 5) & 3), mk_i8((k + 6) & 3), mk_c_char((k + 7) & 3), mk_u8((k + 8) & 3), mk_u64((k + 9) & 3), mk_f32((k + 10) & 3), mk_f64((k + 11) & 3), mk_S2((k + 12) & 3), mk_S3((k + 13) & 3), mk_S6((k + 14) & 3), mk_String((k + 15) & 3), mk_str((k + 16) & 3), mk_Box_RObj((k + 17) & 3), mk_UniquePtr_CObj((k + 18) & 3), mk_sl_u16((k + 19) & 3), mk_bool((k + 20) & 3), mk_Eu8((k + 21) & 3), mk_TrivA((k + 22) & 3), mk_arr4_u8((k + 23) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi324(k), "C++ to Rust"); Ok(()) }
fn r_abi325(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, a6: u8, a7: u64, a8: f32, a9: f64, a10: S2, a11: S3, a12: S6, a13: String, a14: &str, a15: Box<RObj>, a16: UniquePtr<CObj>, a17: &[u16], a18: bool, a19: Eu8, a20: TrivA, a21: [u8; 4], a22: &S2, a23: SharedPtr<CObj>, k: i32) { let ok = ck_WeakPtr_CObj(&a0, (k + 0) & 3) && ck_Vec_u8(&a1, (k + 1) & 3) && ck_ref_RObj(&a2, (k + 2) & 3) && ck_mut_S7(&a3, (k + 3) & 3) && ck_i8(&a4, (k + 4) & 3) && ck_c_char(&a5, (k + 5) & 3) && ck_u8(&a6, (k + 6) & 3) && ck_u64(&a7, (k + 7) & 3) && ck_f32(&a8, (k + 8) & 3) && ck_f64(&a9, (k + 9) & 3) && ck_S2(&a10, (k + 10) & 3) && ck_S3(&a11, (k + 11) & 3) && ck_S6(&a12, (k + 12) & 3) && ck_String(&a13, (k + 13) & 3) && ck_str(&a14, (k + 14) & 3) && ck_Box_RObj(&a15, (k + 15) & 3) && ck_UniquePtr_CObj(&a16, (k + 16) & 3) && ck_sl_u16(&a17, (k + 17) & 3) && ck_bool(&a18, (k + 18) & 3) && ck_Eu8(&a19, (k + 19) & 3) && ck_TrivA(&a20, (k + 20) & 3) && ck_arr4_u8(&a21, (k + 21) & 3) && ck_ref_S2(&a22, (k + 22) & 3) && ck_SharedPtr_CObj(&a23, (k + 23) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi325(k: i32) -> R<()> { let x = ffi::c_abi325(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), mk_i8((k + 4) & 3), mk_c_char((k + 5) & 3), mk_u8((k + 6) & 3), mk_u64((k + 7) & 3), mk_f32((k + 8) & 3), mk_f64((k + 9) & 3), mk_S2((k + 10) & 3), mk_S3((k + 11) & 3), mk_S6((k + 12) & 3), mk_String((k + 13) & 3), mk_str((k + 14) & 3), mk_Box_RObj((k + 15) & 3), mk_UniquePtr_CObj((k + 16) & 3), mk_sl_u16((k + 17) & 3), mk_bool((k + 18) & 3), mk_Eu8((k + 19) & 3), mk_TrivA((k + 20) & 3), mk_arr4_u8((k + 21) & 3), mk_ref_S2((k + 22) & 3), mk_SharedPtr_CObj((k + 23) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi325(k), "C++ to Rust"); Ok(()) }
fn r_abi326(a0: &RObj, a1: &mut S7, a2: i8, a3: c_char, a4: u8, a5: u64, a6: f32, a7: f64, a8: S2, a9: S3, a10: S6, a11: String, a12: &str, a13: Box<RObj>, a14: UniquePtr<CObj>, a15: &[u16], a16: bool, a17: Eu8, a18: TrivA, a19: [u8; 4], a20: &S2, a21: SharedPtr<CObj>, a22: WeakPtr<CObj>, a23: Vec<u8>, k: i32) -> R<String> { let ok = ck_ref_RObj(&a0, (k + 0) & 3) && ck_mut_S7(&a1, (k + 1) & 3) && ck_i8(&a2, (k + 2) & 3) && ck_c_char(&a3, (k + 3) & 3) && ck_u8(&a4, (k + 4) & 3) && ck_u64(&a5, (k + 5) & 3) && ck_f32(&a6, (k + 6) & 3) && ck_f64(&a7, (k + 7) & 3) && ck_S2(&a8, (k + 8) & 3) && ck_S3(&a9, (k + 9) & 3) && ck_S6(&a10, (k + 10) & 3) && ck_String(&a11, (k + 11) & 3) && ck_str(&a12, (k + 12) & 3) && ck_Box_RObj(&a13, (k + 13) & 3) && ck_UniquePtr_CObj(&a14, (k + 14) & 3) && ck_sl_u16(&a15, (k + 15) & 3) && ck_bool(&a16, (k + 16) & 3) && ck_Eu8(&a17, (k + 17) & 3) && ck_TrivA(&a18, (k + 18) & 3) && ck_arr4_u8(&a19, (k + 19) & 3) && ck_ref_S2(&a20, (k + 20) & 3) && ck_SharedPtr_CObj(&a21, (k + 21) & 3) && ck_WeakPtr_CObj(&a22, (k + 22) & 3) && ck_Vec_u8(&a23, (k + 23) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi326(k: i32) -> R<()> { let x = ffi::c_abi326(mk_ref_RObj((k + 0) & 3), mk_mut_S7((k + 1) & 3), mk_i8((k + 2) & 3), mk_c_char((k + 3) & 3), mk_u8((k + 4) & 3), mk_u64((k + 5) & 3), mk_f32((k + 6) & 3), mk_f64((k + 7) & 3), mk_S2((k + 8) & 3), mk_S3((k + 9) & 3), mk_S6((k + 10) & 3), mk_String((k + 11) & 3), mk_str((k + 12) & 3), mk_Box_RObj((k + 13) & 3), mk_UniquePtr_CObj((k + 14) & 3), mk_sl_u16((k + 15) & 3), mk_bool((k + 16) & 3), mk_Eu8((k + 17) & 3), mk_TrivA((k + 18) & 3), mk_arr4_u8((k + 19) & 3), mk_ref_S2((k + 20) & 3), mk_SharedPtr_CObj((k + 21) & 3), mk_WeakPtr_CObj((k + 22) & 3), mk_Vec_u8((k + 23) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi326(k), "C++ to Rust"); Ok(()) }
fn r_abi327(a0: i8, a1: c_char, a2: u8, a3: u64, a4: f32, a5: f64, a6: S2, a7: S3, a8: S6, a9: String, a10: &str, a11: Box<RObj>, a12: UniquePtr<CObj>, a13: &[u16], a14: bool, a15: Eu8, a16: TrivA, a17: [u8; 4], a18: &S2, a19: SharedPtr<CObj>, a20: WeakPtr<CObj>, a21: Vec<u8>, a22: &RObj, a23: &mut S7, k: i32) -> R<S3> { let ok = ck_i8(&a0, (k + 0) & 3) && ck_c_char(&a1, (k + 1) & 3) && ck_u8(&a2, (k + 2) & 3) && ck_u64(&a3, (k + 3) & 3) && ck_f32(&a4, (k + 4) & 3) && ck_f64(&a5, (k + 5) & 3) && ck_S2(&a6, (k + 6) & 3) && ck_S3(&a7, (k + 7) & 3) && ck_S6(&a8, (k + 8) & 3) && ck_String(&a9, (k + 9) & 3) && ck_str(&a10, (k + 10) & 3) && ck_Box_RObj(&a11, (k + 11) & 3) && ck_UniquePtr_CObj(&a12, (k + 12) & 3) && ck_sl_u16(&a13, (k + 13) & 3) && ck_bool(&a14, (k + 14) & 3) && ck_Eu8(&a15, (k + 15) & 3) && ck_TrivA(&a16, (k + 16) & 3) && ck_arr4_u8(&a17, (k + 17) & 3) && ck_ref_S2(&a18, (k + 18) & 3) && ck_SharedPtr_CObj(&a19, (k + 19) & 3) && ck_WeakPtr_CObj(&a20, (k + 20) & 3) && ck_Vec_u8(&a21, (k + 21) & 3) && ck_ref_RObj(&a22, (k + 22) & 3) && ck_mut_S7(&a23, (k + 23) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi327(k: i32) -> R<()> { let x = ffi::c_abi327(mk_i8((k + 0) & 3), mk_c_char((k + 1) & 3), mk_u8((k + 2) & 3), mk_u64((k + 3) & 3), mk_f32((k + 4) & 3), mk_f64((k + 5) & 3), mk_S2((k + 6) & 3), mk_S3((k + 7) & 3), mk_S6((k + 8) & 3), mk_String((k + 9) & 3), mk_str((k + 10) & 3), mk_Box_RObj((k + 11) & 3), mk_UniquePtr_CObj((k + 12) & 3), mk_sl_u16((k + 13) & 3), mk_bool((k + 14) & 3), mk_Eu8((k + 15) & 3), mk_TrivA((k + 16) & 3), mk_arr4_u8((k + 17) & 3), mk_ref_S2((k + 18) & 3), mk_SharedPtr_CObj((k + 19) & 3), mk_WeakPtr_CObj((k + 20) & 3), mk_Vec_u8((k + 21) & 3), mk_ref_RObj((k + 22) & 3), mk_mut_S7((k + 23) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi327(k), "C++ to Rust"); Ok(()) }
fn r_abi328(a0: u8, a1: u64, a2: f32, a3: f64, k: i32) -> R<S6> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f32(&a2, (k + 2) & 3) && ck_f64(&a3, (k + 3) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi328(k: i32) -> R<()> { let x = ffi::c_abi328(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi328(k), "C++ to Rust"); Ok(()) }
fn r_abi329(a0: f64, a1: S2, a2: S3, a3: S6, k: i32) -> R<Box<RObj>> { let ok = ck_f64(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3) && ck_S6(&a3, (k + 3) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi329(k: i32) -> R<()> { let x = ffi::c_abi329(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), mk_S3((k + 2) & 3), mk_S6((k + 3) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi329(k), "C++ to Rust"); Ok(()) }
fn r_abi330(a0: S6, a1: String, a2: &str, a3: Box<RObj>, k: i32) -> R<u8> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3) && ck_Box_RObj(&a3, (k + 3) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi330(k: i32) -> R<()> { let x = ffi::c_abi330(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi330(k), "C++ to Rust"); Ok(()) }
fn r_abi331(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, k: i32) -> R<f64> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3) && ck_sl_u16(&a2, (k + 2) & 3) && ck_bool(&a3, (k + 3) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi331(k: i32) -> R<()> { let x = ffi::c_abi331(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_sl_u16((k + 2) & 3), mk_bool((k + 3) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi331(k), "C++ to Rust"); Ok(()) }
fn r_abi332(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], k: i32) -> R<UniquePtr<CObj>> { let ok = ck_bool(&a0, (k + 0) & 3) && ck_Eu8(&a1, (k + 1) & 3) && ck_TrivA(&a2, (k + 2) & 3) && ck_arr4_u8(&a3, (k + 3) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi332(k: i32) -> R<()> { let x = ffi::c_abi332(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi332(k), "C++ to Rust"); Ok(()) }
fn r_abi333(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, k: i32) -> R<Vec<u8>> { let ok = ck_arr4_u8(&a0, (k + 0) & 3) && ck_ref_S2(&a1, (k + 1) & 3) && ck_SharedPtr_CObj(&a2, (k + 2) & 3) && ck_WeakPtr_CObj(&a3, (k + 3) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi333(k: i32) -> R<()> { let x = ffi::c_abi333(mk_arr4_u8((k + 0) & 3), mk_ref_S2((k + 1) & 3), mk_SharedPtr_CObj((k + 2) & 3), mk_WeakPtr_CObj((k + 3) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi333(k), "C++ to Rust"); Ok(()) }
fn r_abi334(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, k: i32) -> R<SharedPtr<CObj>> { let ok = ck_WeakPtr_CObj(&a0, (k + 0) & 3) && ck_Vec_u8(&a1, (k + 1) & 3) && ck_ref_RObj(&a2, (k + 2) & 3) && ck_mut_S7(&a3, (k + 3) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi334(k: i32) -> R<()> { let x = ffi::c_abi334(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi334(k), "C++ to Rust"); Ok(()) }
fn r_abi335(a0: &mut S7, a1: i8, a2: c_char, a3: u8, k: i32) -> R<TrivA> { let ok = ck_mut_S7(&a0, (k + 0) & 3) && ck_i8(&a1, (k + 1) & 3) && ck_c_char(&a2, (k + 2) & 3) && ck_u8(&a3, (k + 3) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi335(k: i32) -> R<()> { let x = ffi::c_abi335(mk_mut_S7((k + 0) & 3), mk_i8((k + 1) & 3), mk_c_char((k + 2) & 3), mk_u8((k + 3) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi335(k), "C++ to Rust"); Ok(()) }
fn r_abi336(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, k: i32) -> R<Eu8> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f32(&a2, (k + 2) & 3) && ck_f64(&a3, (k + 3) & 3) && ck_S2(&a4, (k + 4) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi336(k: i32) -> R<()> { let x = ffi::c_abi336(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), mk_S2((k + 4) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi336(k), "C++ to Rust"); Ok(()) }
fn r_abi337(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, k: i32) -> R<[u8; 4]> { let ok = ck_f64(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3) && ck_S6(&a3, (k + 3) & 3) && ck_String(&a4, (k + 4) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi337(k: i32) -> R<()> { let x = ffi::c_abi337(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), mk_S3((k + 2) & 3), mk_S6((k + 3) & 3), mk_String((k + 4) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi337(k), "C++ to Rust"); Ok(()) }
fn r_abi338(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, k: i32) { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3) && ck_Box_RObj(&a3, (k + 3) & 3) && ck_UniquePtr_CObj(&a4, (k + 4) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi338(k: i32) -> R<()> { let x = ffi::c_abi338(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), mk_UniquePtr_CObj((k + 4) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi338(k), "C++ to Rust"); Ok(()) }
fn r_abi339(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, k: i32) -> String { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3) && ck_sl_u16(&a2, (k + 2) & 3) && ck_bool(&a3, (k + 3) & 3) && ck_Eu8(&a4, (k + 4) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi339(k: i32) -> R<()> { let x = ffi::c_abi339(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_sl_u16((k + 2) & 3), mk_bool((k + 3) & 3), mk_Eu8((k + 4) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi339(k), "C++ to Rust"); Ok(()) }
fn r_abi340(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, k: i32) -> S3 { let ok = ck_bool(&a0, (k + 0) & 3) && ck_Eu8(&a1, (k + 1) & 3) && ck_TrivA(&a2, (k + 2) & 3) && ck_arr4_u8(&a3, (k + 3) & 3) && ck_ref_S2(&a4, (k + 4) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi340(k: i32) -> R<()> { let x = ffi::c_abi340(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), mk_ref_S2((k + 4) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi340(k), "C++ to Rust"); Ok(()) }
fn r_abi341(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, k: i32) -> S6 { let ok = ck_arr4_u8(&a0, (k + 0) & 3) && ck_ref_S2(&a1, (k + 1) & 3) && ck_SharedPtr_CObj(&a2, (k + 2) & 3) && ck_WeakPtr_CObj(&a3, (k + 3) & 3) && ck_Vec_u8(&a4, (k + 4) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi341(k: i32) -> R<()> { let x = ffi::c_abi341(mk_arr4_u8((k + 0) & 3), mk_ref_S2((k + 1) & 3), mk_SharedPtr_CObj((k + 2) & 3), mk_WeakPtr_CObj((k + 3) & 3), mk_Vec_u8((k + 4) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi341(k), "C++ to Rust"); Ok(()) }
fn r_abi342(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, k: i32) -> Box<RObj> { let ok = ck_WeakPtr_CObj(&a0, (k + 0) & 3) && ck_Vec_u8(&a1, (k + 1) & 3) && ck_ref_RObj(&a2, (k + 2) & 3) && ck_mut_S7(&a3, (k + 3) & 3) && ck_i8(&a4, (k + 4) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi342(k: i32) -> R<()> { let x = ffi::c_abi342(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), mk_i8((k + 4) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi342(k), "C++ to Rust"); Ok(()) }
fn r_abi343(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, k: i32) -> u8 { let ok = ck_mut_S7(&a0, (k + 0) & 3) && ck_i8(&a1, (k + 1) & 3) && ck_c_char(&a2, (k + 2) & 3) && ck_u8(&a3, (k + 3) & 3) && ck_u64(&a4, (k + 4) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi343(k: i32) -> R<()> { let x = ffi::c_abi343(mk_mut_S7((k + 0) & 3), mk_i8((k + 1) & 3), mk_c_char((k + 2) & 3), mk_u8((k + 3) & 3), mk_u64((k + 4) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi343(k), "C++ to Rust"); Ok(()) }
fn r_abi344(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, k: i32) -> f64 { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f32(&a2, (k + 2) & 3) && ck_f64(&a3, (k + 3) & 3) && ck_S2(&a4, (k + 4) & 3) && ck_S3(&a5, (k + 5) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi344(k: i32) -> R<()> { let x = ffi::c_abi344(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), mk_S2((k + 4) & 3), mk_S3((k + 5) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi344(k), "C++ to Rust"); Ok(()) }
fn r_abi345(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, a5: &str, k: i32) -> UniquePtr<CObj> { let ok = ck_f64(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3) && ck_S6(&a3, (k + 3) & 3) && ck_String(&a4, (k + 4) & 3) && ck_str(&a5, (k + 5) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi345(k: i32) -> R<()> { let x = ffi::c_abi345(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), mk_S3((k + 2) & 3), mk_S6((k + 3) & 3), mk_String((k + 4) & 3), mk_str((k + 5) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi345(k), "C++ to Rust"); Ok(()) }
fn r_abi346(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], k: i32) -> Vec<u8> { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3) && ck_Box_RObj(&a3, (k + 3) & 3) && ck_UniquePtr_CObj(&a4, (k + 4) & 3) && ck_sl_u16(&a5, (k + 5) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi346(k: i32) -> R<()> { let x = ffi::c_abi346(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), mk_UniquePtr_CObj((k + 4) & 3), mk_sl_u16((k + 5) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi346(k), "C++ to Rust"); Ok(()) }
fn r_abi347(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, a5: TrivA, k: i32) -> SharedPtr<CObj> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3) && ck_sl_u16(&a2, (k + 2) & 3) && ck_bool(&a3, (k + 3) & 3) && ck_Eu8(&a4, (k + 4) & 3) && ck_TrivA(&a5, (k + 5) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi347(k: i32) -> R<()> { let x = ffi::c_abi347(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_sl_u16((k + 2) & 3), mk_bool((k + 3) & 3), mk_Eu8((k + 4) & 3), mk_TrivA((k + 5) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi347(k), "C++ to Rust"); Ok(()) }
fn r_abi348(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, k: i32) -> TrivA { let ok = ck_bool(&a0, (k + 0) & 3) && ck_Eu8(&a1, (k + 1) & 3) && ck_TrivA(&a2, (k + 2) & 3) && ck_arr4_u8(&a3, (k + 3) & 3) && ck_ref_S2(&a4, (k + 4) & 3) && ck_SharedPtr_CObj(&a5, (k + 5) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi348(k: i32) -> R<()> { let x = ffi::c_abi348(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), mk_ref_S2((k + 4) & 3), mk_SharedPtr_CObj((k + 5) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi348(k), "C++ to Rust"); Ok(()) }
fn r_abi349(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, a5: &RObj, k: i32) -> Eu8 { let ok = ck_arr4_u8(&a0, (k + 0) & 3) && ck_ref_S2(&a1, (k + 1) & 3) && ck_SharedPtr_CObj(&a2, (k + 2) & 3) && ck_WeakPtr_CObj(&a3, (k + 3) & 3) && ck_Vec_u8(&a4, (k + 4) & 3) && ck_ref_RObj(&a5, (k + 5) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi349(k: i32) -> R<()> { let x = ffi::c_abi349(mk_arr4_u8((k + 0) & 3), mk_ref_S2((k + 1) & 3), mk_SharedPtr_CObj((k + 2) & 3), mk_WeakPtr_CObj((k + 3) & 3), mk_Vec_u8((k + 4) & 3), mk_ref_RObj((k + 5) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi349(k), "C++ to Rust"); Ok(()) }
fn r_abi350(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, k: i32) -> [u8; 4] { let ok = ck_WeakPtr_CObj(&a0, (k + 0) & 3) && ck_Vec_u8(&a1, (k + 1) & 3) && ck_ref_RObj(&a2, (k + 2) & 3) && ck_mut_S7(&a3, (k + 3) & 3) && ck_i8(&a4, (k + 4) & 3) && ck_c_char(&a5, (k + 5) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi350(k: i32) -> R<()> { let x = ffi::c_abi350(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), mk_i8((k + 4) & 3), mk_c_char((k + 5) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi350(k), "C++ to Rust"); Ok(()) }
fn r_abi351(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, a5: f32, k: i32) { let ok = ck_mut_S7(&a0, (k + 0) & 3) && ck_i8(&a1, (k + 1) & 3) && ck_c_char(&a2, (k + 2) & 3) && ck_u8(&a3, (k + 3) & 3) && ck_u64(&a4, (k + 4) & 3) && ck_f32(&a5, (k + 5) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi351(k: i32) -> R<()> { let x = ffi::c_abi351(mk_mut_S7((k + 0) & 3), mk_i8((k + 1) & 3), mk_c_char((k + 2) & 3), mk_u8((k + 3) & 3), mk_u64((k + 4) & 3), mk_f32((k + 5) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi351(k), "C++ to Rust"); Ok(()) }
fn r_abi352(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, a6: S6, k: i32) -> String { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f32(&a2, (k + 2) & 3) && ck_f64(&a3, (k + 3) & 3) && ck_S2(&a4, (k + 4) & 3) && ck_S3(&a5, (k + 5) & 3) && ck_S6(&a6, (k + 6) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); x }
fn go_abi352(k: i32) -> R<()> { let x = ffi::c_abi352(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), mk_S2((k + 4) & 3), mk_S3((k + 5) & 3), mk_S6((k + 6) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi352(k), "C++ to Rust"); Ok(()) }
fn r_abi353(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, a5: &str, a6: Box<RObj>, k: i32) -> S3 { let ok = ck_f64(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3) && ck_S6(&a3, (k + 3) & 3) && ck_String(&a4, (k + 4) & 3) && ck_str(&a5, (k + 5) & 3) && ck_Box_RObj(&a6, (k + 6) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); x }
fn go_abi353(k: i32) -> R<()> { let x = ffi::c_abi353(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), mk_S3((k + 2) & 3), mk_S6((k + 3) & 3), mk_String((k + 4) & 3), mk_str((k + 5) & 3), mk_Box_RObj((k + 6) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi353(k), "C++ to Rust"); Ok(()) }
fn r_abi354(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], a6: bool, k: i32) -> S6 { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3) && ck_Box_RObj(&a3, (k + 3) & 3) && ck_UniquePtr_CObj(&a4, (k + 4) & 3) && ck_sl_u16(&a5, (k + 5) & 3) && ck_bool(&a6, (k + 6) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); x }
fn go_abi354(k: i32) -> R<()> { let x = ffi::c_abi354(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), mk_UniquePtr_CObj((k + 4) & 3), mk_sl_u16((k + 5) & 3), mk_bool((k + 6) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi354(k), "C++ to Rust"); Ok(()) }
fn r_abi355(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, a5: TrivA, a6: [u8; 4], k: i32) -> Box<RObj> { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3) && ck_sl_u16(&a2, (k + 2) & 3) && ck_bool(&a3, (k + 3) & 3) && ck_Eu8(&a4, (k + 4) & 3) && ck_TrivA(&a5, (k + 5) & 3) && ck_arr4_u8(&a6, (k + 6) & 3); let x = mk_Box_RObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi355(k: i32) -> R<()> { let x = ffi::c_abi355(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_sl_u16((k + 2) & 3), mk_bool((k + 3) & 3), mk_Eu8((k + 4) & 3), mk_TrivA((k + 5) & 3), mk_arr4_u8((k + 6) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Box_RObj(&x, k), "return"); ensure!(ffi::c_run_abi355(k), "C++ to Rust"); Ok(()) }
fn r_abi356(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, a6: WeakPtr<CObj>, k: i32) -> u8 { let ok = ck_bool(&a0, (k + 0) & 3) && ck_Eu8(&a1, (k + 1) & 3) && ck_TrivA(&a2, (k + 2) & 3) && ck_arr4_u8(&a3, (k + 3) & 3) && ck_ref_S2(&a4, (k + 4) & 3) && ck_SharedPtr_CObj(&a5, (k + 5) & 3) && ck_WeakPtr_CObj(&a6, (k + 6) & 3); let x = mk_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi356(k: i32) -> R<()> { let x = ffi::c_abi356(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), mk_ref_S2((k + 4) & 3), mk_SharedPtr_CObj((k + 5) & 3), mk_WeakPtr_CObj((k + 6) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_u8(&x, k), "return"); ensure!(ffi::c_run_abi356(k), "C++ to Rust"); Ok(()) }
fn r_abi357(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, a5: &RObj, a6: &mut S7, k: i32) -> f64 { let ok = ck_arr4_u8(&a0, (k + 0) & 3) && ck_ref_S2(&a1, (k + 1) & 3) && ck_SharedPtr_CObj(&a2, (k + 2) & 3) && ck_WeakPtr_CObj(&a3, (k + 3) & 3) && ck_Vec_u8(&a4, (k + 4) & 3) && ck_ref_RObj(&a5, (k + 5) & 3) && ck_mut_S7(&a6, (k + 6) & 3); let x = mk_f64(k); note(if ok { 7 } else { 8 }); x }
fn go_abi357(k: i32) -> R<()> { let x = ffi::c_abi357(mk_arr4_u8((k + 0) & 3), mk_ref_S2((k + 1) & 3), mk_SharedPtr_CObj((k + 2) & 3), mk_WeakPtr_CObj((k + 3) & 3), mk_Vec_u8((k + 4) & 3), mk_ref_RObj((k + 5) & 3), mk_mut_S7((k + 6) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_f64(&x, k), "return"); ensure!(ffi::c_run_abi357(k), "C++ to Rust"); Ok(()) }
fn r_abi358(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, a6: u8, k: i32) -> UniquePtr<CObj> { let ok = ck_WeakPtr_CObj(&a0, (k + 0) & 3) && ck_Vec_u8(&a1, (k + 1) & 3) && ck_ref_RObj(&a2, (k + 2) & 3) && ck_mut_S7(&a3, (k + 3) & 3) && ck_i8(&a4, (k + 4) & 3) && ck_c_char(&a5, (k + 5) & 3) && ck_u8(&a6, (k + 6) & 3); let x = mk_UniquePtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi358(k: i32) -> R<()> { let x = ffi::c_abi358(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), mk_i8((k + 4) & 3), mk_c_char((k + 5) & 3), mk_u8((k + 6) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_UniquePtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi358(k), "C++ to Rust"); Ok(()) }
fn r_abi359(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, a5: f32, a6: f64, k: i32) -> Vec<u8> { let ok = ck_mut_S7(&a0, (k + 0) & 3) && ck_i8(&a1, (k + 1) & 3) && ck_c_char(&a2, (k + 2) & 3) && ck_u8(&a3, (k + 3) & 3) && ck_u64(&a4, (k + 4) & 3) && ck_f32(&a5, (k + 5) & 3) && ck_f64(&a6, (k + 6) & 3); let x = mk_Vec_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi359(k: i32) -> R<()> { let x = ffi::c_abi359(mk_mut_S7((k + 0) & 3), mk_i8((k + 1) & 3), mk_c_char((k + 2) & 3), mk_u8((k + 3) & 3), mk_u64((k + 4) & 3), mk_f32((k + 5) & 3), mk_f64((k + 6) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Vec_u8(&x, k), "return"); ensure!(ffi::c_run_abi359(k), "C++ to Rust"); Ok(()) }
fn r_abi360(a0: u8, a1: u64, a2: f32, a3: f64, a4: S2, a5: S3, a6: S6, a7: String, k: i32) -> SharedPtr<CObj> { let ok = ck_u8(&a0, (k + 0) & 3) && ck_u64(&a1, (k + 1) & 3) && ck_f32(&a2, (k + 2) & 3) && ck_f64(&a3, (k + 3) & 3) && ck_S2(&a4, (k + 4) & 3) && ck_S3(&a5, (k + 5) & 3) && ck_S6(&a6, (k + 6) & 3) && ck_String(&a7, (k + 7) & 3); let x = mk_SharedPtr_CObj(k); note(if ok { 7 } else { 8 }); x }
fn go_abi360(k: i32) -> R<()> { let x = ffi::c_abi360(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), mk_S2((k + 4) & 3), mk_S3((k + 5) & 3), mk_S6((k + 6) & 3), mk_String((k + 7) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_SharedPtr_CObj(&x, k), "return"); ensure!(ffi::c_run_abi360(k), "C++ to Rust"); Ok(()) }
fn r_abi361(a0: f64, a1: S2, a2: S3, a3: S6, a4: String, a5: &str, a6: Box<RObj>, a7: UniquePtr<CObj>, k: i32) -> TrivA { let ok = ck_f64(&a0, (k + 0) & 3) && ck_S2(&a1, (k + 1) & 3) && ck_S3(&a2, (k + 2) & 3) && ck_S6(&a3, (k + 3) & 3) && ck_String(&a4, (k + 4) & 3) && ck_str(&a5, (k + 5) & 3) && ck_Box_RObj(&a6, (k + 6) & 3) && ck_UniquePtr_CObj(&a7, (k + 7) & 3); let x = mk_TrivA(k); note(if ok { 7 } else { 8 }); x }
fn go_abi361(k: i32) -> R<()> { let x = ffi::c_abi361(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), mk_S3((k + 2) & 3), mk_S6((k + 3) & 3), mk_String((k + 4) & 3), mk_str((k + 5) & 3), mk_Box_RObj((k + 6) & 3), mk_UniquePtr_CObj((k + 7) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_TrivA(&x, k), "return"); ensure!(ffi::c_run_abi361(k), "C++ to Rust"); Ok(()) }
fn r_abi362(a0: S6, a1: String, a2: &str, a3: Box<RObj>, a4: UniquePtr<CObj>, a5: &[u16], a6: bool, a7: Eu8, k: i32) -> Eu8 { let ok = ck_S6(&a0, (k + 0) & 3) && ck_String(&a1, (k + 1) & 3) && ck_str(&a2, (k + 2) & 3) && ck_Box_RObj(&a3, (k + 3) & 3) && ck_UniquePtr_CObj(&a4, (k + 4) & 3) && ck_sl_u16(&a5, (k + 5) & 3) && ck_bool(&a6, (k + 6) & 3) && ck_Eu8(&a7, (k + 7) & 3); let x = mk_Eu8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi362(k: i32) -> R<()> { let x = ffi::c_abi362(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), mk_UniquePtr_CObj((k + 4) & 3), mk_sl_u16((k + 5) & 3), mk_bool((k + 6) & 3), mk_Eu8((k + 7) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_Eu8(&x, k), "return"); ensure!(ffi::c_run_abi362(k), "C++ to Rust"); Ok(()) }
fn r_abi363(a0: Box<RObj>, a1: UniquePtr<CObj>, a2: &[u16], a3: bool, a4: Eu8, a5: TrivA, a6: [u8; 4], a7: &S2, k: i32) -> [u8; 4] { let ok = ck_Box_RObj(&a0, (k + 0) & 3) && ck_UniquePtr_CObj(&a1, (k + 1) & 3) && ck_sl_u16(&a2, (k + 2) & 3) && ck_bool(&a3, (k + 3) & 3) && ck_Eu8(&a4, (k + 4) & 3) && ck_TrivA(&a5, (k + 5) & 3) && ck_arr4_u8(&a6, (k + 6) & 3) && ck_ref_S2(&a7, (k + 7) & 3); let x = mk_arr4_u8(k); note(if ok { 7 } else { 8 }); x }
fn go_abi363(k: i32) -> R<()> { let x = ffi::c_abi363(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_sl_u16((k + 2) & 3), mk_bool((k + 3) & 3), mk_Eu8((k + 4) & 3), mk_TrivA((k + 5) & 3), mk_arr4_u8((k + 6) & 3), mk_ref_S2((k + 7) & 3), k); ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_arr4_u8(&x, k), "return"); ensure!(ffi::c_run_abi363(k), "C++ to Rust"); Ok(()) }
fn r_abi364(a0: bool, a1: Eu8, a2: TrivA, a3: [u8; 4], a4: &S2, a5: SharedPtr<CObj>, a6: WeakPtr<CObj>, a7: Vec<u8>, k: i32) { let ok = ck_bool(&a0, (k + 0) & 3) && ck_Eu8(&a1, (k + 1) & 3) && ck_TrivA(&a2, (k + 2) & 3) && ck_arr4_u8(&a3, (k + 3) & 3) && ck_ref_S2(&a4, (k + 4) & 3) && ck_SharedPtr_CObj(&a5, (k + 5) & 3) && ck_WeakPtr_CObj(&a6, (k + 6) & 3) && ck_Vec_u8(&a7, (k + 7) & 3); note(if ok { 7 } else { 8 }); }
fn go_abi364(k: i32) -> R<()> { let x = ffi::c_abi364(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), mk_ref_S2((k + 4) & 3), mk_SharedPtr_CObj((k + 5) & 3), mk_WeakPtr_CObj((k + 6) & 3), mk_Vec_u8((k + 7) & 3), k); ensure!(addr() == 7, "arguments Rust to C++");  ensure!(ffi::c_run_abi364(k), "C++ to Rust"); Ok(()) }
fn r_abi365(a0: [u8; 4], a1: &S2, a2: SharedPtr<CObj>, a3: WeakPtr<CObj>, a4: Vec<u8>, a5: &RObj, a6: &mut S7, a7: i8, k: i32) -> R<String> { let ok = ck_arr4_u8(&a0, (k + 0) & 3) && ck_ref_S2(&a1, (k + 1) & 3) && ck_SharedPtr_CObj(&a2, (k + 2) & 3) && ck_WeakPtr_CObj(&a3, (k + 3) & 3) && ck_Vec_u8(&a4, (k + 4) & 3) && ck_ref_RObj(&a5, (k + 5) & 3) && ck_mut_S7(&a6, (k + 6) & 3) && ck_i8(&a7, (k + 7) & 3); let x = mk_String(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi365(k: i32) -> R<()> { let x = ffi::c_abi365(mk_arr4_u8((k + 0) & 3), mk_ref_S2((k + 1) & 3), mk_SharedPtr_CObj((k + 2) & 3), mk_WeakPtr_CObj((k + 3) & 3), mk_Vec_u8((k + 4) & 3), mk_ref_RObj((k + 5) & 3), mk_mut_S7((k + 6) & 3), mk_i8((k + 7) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_String(&x, k), "return"); ensure!(ffi::c_run_abi365(k), "C++ to Rust"); Ok(()) }
fn r_abi366(a0: WeakPtr<CObj>, a1: Vec<u8>, a2: &RObj, a3: &mut S7, a4: i8, a5: c_char, a6: u8, a7: u64, k: i32) -> R<S3> { let ok = ck_WeakPtr_CObj(&a0, (k + 0) & 3) && ck_Vec_u8(&a1, (k + 1) & 3) && ck_ref_RObj(&a2, (k + 2) & 3) && ck_mut_S7(&a3, (k + 3) & 3) && ck_i8(&a4, (k + 4) & 3) && ck_c_char(&a5, (k + 5) & 3) && ck_u8(&a6, (k + 6) & 3) && ck_u64(&a7, (k + 7) & 3); let x = mk_S3(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi366(k: i32) -> R<()> { let x = ffi::c_abi366(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), mk_i8((k + 4) & 3), mk_c_char((k + 5) & 3), mk_u8((k + 6) & 3), mk_u64((k + 7) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S3(&x, k), "return"); ensure!(ffi::c_run_abi366(k), "C++ to Rust"); Ok(()) }
fn r_abi367(a0: &mut S7, a1: i8, a2: c_char, a3: u8, a4: u64, a5: f32, a6: f64, a7: S2, k: i32) -> R<S6> { let ok = ck_mut_S7(&a0, (k + 0) & 3) && ck_i8(&a1, (k + 1) & 3) && ck_c_char(&a2, (k + 2) & 3) && ck_u8(&a3, (k + 3) & 3) && ck_u64(&a4, (k + 4) & 3) && ck_f32(&a5, (k + 5) & 3) && ck_f64(&a6, (k + 6) & 3) && ck_S2(&a7, (k + 7) & 3); let x = mk_S6(k); note(if ok { 7 } else { 8 }); Ok(x) }
fn go_abi367(k: i32) -> R<()> { let x = ffi::c_abi367(mk_mut_S7((k + 0) & 3), mk_i8((k + 1) & 3), mk_c_char((k + 2) & 3), mk_u8((k + 3) & 3), mk_u64((k + 4) & 3), mk_f32((k + 5) & 3), mk_f64((k + 6) & 3), mk_S2((k + 7) & 3), k).map_err(|e| e.to_string())?; ensure!(addr() == 7, "arguments Rust to C++"); ensure!(ck_S6(&x, k), "return"); ensure!(ffi::c_run_abi367(k), "C++ to Rust"); Ok(()) }
pub fn systems() -> Vec<System> { let mut v = vec![];
let ops: Vec<String> = (0..60).map(|i| format!("{}({})", ["c_take", "c_make", "c_try", "c_try_fail", "c_echo", "c_mix", "c_method", "c_callback", "r_take", "r_make", "r_try", "r_try_fail", "r_echo", "r_mix", "r_method"][i / 4], i % 4)).collect();
let mut add = |n: &str, f: unsafe fn(usize, i32) -> R<()>| { v.push(rust_system(&format!("sig-{}-{}", "c09d", n), ops.clone(), move |t, key| { for x in t { unsafe { f(*x as usize / 4, *x as i32 % 4)? } } key.push(t.last().map_or(255, |x| *x as u8)); Ok(true) })); };
add("UniquePtr_CObj", run_UniquePtr_CObj);
add("SharedPtr_CObj", run_SharedPtr_CObj);
let fs: &'static [(&'static str, fn(i32) -> R<()>)] = &[("u8 u8 -> ()", go_abi0), ("u8 u64 -> String", go_abi1), ("u8 f32 -> S3", go_abi2), ("u8 f64 -> S6", go_abi3), ("u8 S2 -> Box_RObj", go_abi4), ("u8 S3 -> u8", go_abi5), ("u8 S6 -> f64", go_abi6), ("u8 String -> UniquePtr_CObj", go_abi7), ("u8 str -> Vec_u8", go_abi8), ("u8 Box_RObj -> SharedPtr_CObj", go_abi9), ("u8 UniquePtr_CObj -> TrivA", go_abi10), ("u8 sl_u16 -> Eu8", go_abi11), ("u8 TrivA -> arr4_u8", go_abi12), ("u8 SharedPtr_CObj -> ()", go_abi13), ("u64 u8 -> Result String", go_abi14), ("u64 u64 -> Result S3", go_abi15), ("u64 f32 -> Result S6", go_abi16), ("u64 f64 -> Result Box_RObj", go_abi17), ("u64 S2 -> Result u8", go_abi18), ("u64 S3 -> Result f64", go_abi19), ("u64 S6 -> Result UniquePtr_CObj", go_abi20), ("u64 String -> Result Vec_u8", go_abi21), ("u64 str -> Result SharedPtr_CObj", go_abi22), ("u64 Box_RObj -> Result TrivA", go_abi23), ("u64 UniquePtr_CObj -> Result Eu8", go_abi24), ("u64 sl_u16 -> Result arr4_u8", go_abi25), ("u64 TrivA -> ()", go_abi26), ("u64 SharedPtr_CObj -> String", go_abi27), ("f32 u8 -> S3", go_abi28), ("f32 u64 -> S6", go_abi29), ("f32 f32 -> Box_RObj", go_abi30), ("f32 f64 -> u8", go_abi31), ("f32 S2 -> f64", go_abi32), ("f32 S3 -> UniquePtr_CObj", go_abi33), ("f32 S6 -> Vec_u8", go_abi34), ("f32 String -> SharedPtr_CObj", go_abi35), ("f32 str -> TrivA", go_abi36), ("f32 Box_RObj -> Eu8", go_abi37), ("f32 UniquePtr_CObj -> arr4_u8", go_abi38), ("f32 sl_u16 -> ()", go_abi39), ("f32 TrivA -> String", go_abi40), ("f32 SharedPtr_CObj -> S3", go_abi41), ("f64 u8 -> S6", go_abi42), ("f64 u64 -> Box_RObj", go_abi43), ("f64 f32 -> u8", go_abi44), ("f64 f64 -> f64", go_abi45), ("f64 S2 -> UniquePtr_CObj", go_abi46), ("f64 S3 -> Vec_u8", go_abi47), ("f64 S6 -> SharedPtr_CObj", go_abi48), ("f64 String -> TrivA", go_abi49), ("f64 str -> Eu8", go_abi50), ("f64 Box_RObj -> arr4_u8", go_abi51), ("f64 UniquePtr_CObj -> ()", go_abi52), ("f64 sl_u16 -> Result String", go_abi53), ("f64 TrivA -> Result S3", go_abi54), ("f64 SharedPtr_CObj -> Result S6", go_abi55), ("S2 u8 -> Result Box_RObj", go_abi56), ("S2 u64 -> Result u8", go_abi57), ("S2 f32 -> Result f64", go_abi58), ("S2 f64 -> Result UniquePtr_CObj", go_abi59), ("S2 S2 -> Result Vec_u8", go_abi60), ("S2 S3 -> Result SharedPtr_CObj", go_abi61), ("S2 S6 -> Result TrivA", go_abi62), ("S2 String -> Result Eu8", go_abi63), ("S2 str -> Result arr4_u8", go_abi64), ("S2 Box_RObj -> ()", go_abi65), ("S2 UniquePtr_CObj -> String", go_abi66), ("S2 sl_u16 -> S3", go_abi67), ("S2 TrivA -> S6", go_abi68), ("S2 SharedPtr_CObj -> Box_RObj", go_abi69), ("S3 u8 -> u8", go_abi70), ("S3 u64 -> f64", go_abi71), ("S3 f32 -> UniquePtr_CObj", go_abi72), ("S3 f64 -> Vec_u8", go_abi73), ("S3 S2 -> SharedPtr_CObj", go_abi74), ("S3 S3 -> TrivA", go_abi75), ("S3 S6 -> Eu8", go_abi76), ("S3 String -> arr4_u8", go_abi77), ("S3 str -> ()", go_abi78), ("S3 Box_RObj -> String", go_abi79), ("S3 UniquePtr_CObj -> S3", go_abi80), ("S3 sl_u16 -> S6", go_abi81), ("S3 TrivA -> Box_RObj", go_abi82), ("S3 SharedPtr_CObj -> u8", go_abi83), ("S6 u8 -> f64", go_abi84), ("S6 u64 -> UniquePtr_CObj", go_abi85), ("S6 f32 -> Vec_u8", go_abi86), ("S6 f64 -> SharedPtr_CObj", go_abi87), ("S6 S2 -> TrivA", go_abi88), ("S6 S3 -> Eu8", go_abi89), ("S6 S6 -> arr4_u8", go_abi90), ("S6 String -> ()", go_abi91), ("S6 str -> Result String", go_abi92), ("S6 Box_RObj -> Result S3", go_abi93), ("S6 UniquePtr_CObj -> Result S6", go_abi94), ("S6 sl_u16 -> Result Box_RObj", go_abi95), ("S6 TrivA -> Result u8", go_abi96), ("S6 SharedPtr_CObj -> Result f64", go_abi97), ("String u8 -> Result UniquePtr_CObj", go_abi98), ("String u64 -> Result Vec_u8", go_abi99), ("String f32 -> Result SharedPtr_CObj", go_abi100), ("String f64 -> Result TrivA", go_abi101), ("String S2 -> Result Eu8", go_abi102), ("String S3 -> Result arr4_u8", go_abi103), ("String S6 -> ()", go_abi104), ("String String -> String", go_abi105), ("String str -> S3", go_abi106), ("String Box_RObj -> S6", go_abi107), ("String UniquePtr_CObj -> Box_RObj", go_abi108), ("String sl_u16 -> u8", go_abi109), ("String TrivA -> f64", go_abi110), ("String SharedPtr_CObj -> UniquePtr_CObj", go_abi111), ("str u8 -> Vec_u8", go_abi112), ("str u64 -> SharedPtr_CObj", go_abi113), ("str f32 -> TrivA", go_abi114), ("str f64 -> Eu8", go_abi115), ("str S2 -> arr4_u8", go_abi116), ("str S3 -> ()", go_abi117), ("str S6 -> String", go_abi118), ("str String -> S3", go_abi119), ("str str -> S6", go_abi120), ("str Box_RObj -> Box_RObj", go_abi121), ("str UniquePtr_CObj -> u8", go_abi122), ("str sl_u16 -> f64", go_abi123), ("str TrivA -> UniquePtr_CObj", go_abi124), ("str SharedPtr_CObj -> Vec_u8", go_abi125), ("Box_RObj u8 -> SharedPtr_CObj", go_abi126), ("Box_RObj u64 -> TrivA", go_abi127), ("Box_RObj f32 -> Eu8", go_abi128), ("Box_RObj f64 -> arr4_u8", go_abi129), ("Box_RObj S2 -> ()", go_abi130), ("Box_RObj S3 -> Result String", go_abi131), ("Box_RObj S6 -> Result S3", go_abi132), ("Box_RObj String -> Result S6", go_abi133), ("Box_RObj str -> Result Box_RObj", go_abi134), ("Box_RObj Box_RObj -> Result u8", go_abi135), ("Box_RObj UniquePtr_CObj -> Result f64", go_abi136), ("Box_RObj sl_u16 -> Result UniquePtr_CObj", go_abi137), ("Box_RObj TrivA -> Result Vec_u8", go_abi138), ("Box_RObj SharedPtr_CObj -> Result SharedPtr_CObj", go_abi139), ("UniquePtr_CObj u8 -> Result TrivA", go_abi140), ("UniquePtr_CObj u64 -> Result Eu8", go_abi141), ("UniquePtr_CObj f32 -> Result arr4_u8", go_abi142), ("UniquePtr_CObj f64 -> ()", go_abi143), ("UniquePtr_CObj S2 -> String", go_abi144), ("UniquePtr_CObj S3 -> S3", go_abi145), ("UniquePtr_CObj S6 -> S6", go_abi146), ("UniquePtr_CObj String -> Box_RObj", go_abi147), ("UniquePtr_CObj str -> u8", go_abi148), ("UniquePtr_CObj Box_RObj -> f64", go_abi149), ("UniquePtr_CObj UniquePtr_CObj -> UniquePtr_CObj", go_abi150), ("UniquePtr_CObj sl_u16 -> Vec_u8", go_abi151), ("UniquePtr_CObj TrivA -> SharedPtr_CObj", go_abi152), ("UniquePtr_CObj SharedPtr_CObj -> TrivA", go_abi153), ("sl_u16 u8 -> Eu8", go_abi154), ("sl_u16 u64 -> arr4_u8", go_abi155), ("sl_u16 f32 -> ()", go_abi156), ("sl_u16 f64 -> String", go_abi157), ("sl_u16 S2 -> S3", go_abi158), ("sl_u16 S3 -> S6", go_abi159), ("sl_u16 S6 -> Box_RObj", go_abi160), ("sl_u16 String -> u8", go_abi161), ("sl_u16 str -> f64", go_abi162), ("sl_u16 Box_RObj -> UniquePtr_CObj", go_abi163), ("sl_u16 UniquePtr_CObj -> Vec_u8", go_abi164), ("sl_u16 sl_u16 -> SharedPtr_CObj", go_abi165), ("sl_u16 TrivA -> TrivA", go_abi166), ("sl_u16 SharedPtr_CObj -> Eu8", go_abi167), ("TrivA u8 -> arr4_u8", go_abi168), ("TrivA u64 -> ()", go_abi169), ("TrivA f32 -> Result String", go_abi170), ("TrivA f64 -> Result S3", go_abi171), ("TrivA S2 -> Result S6", go_abi172), ("TrivA S3 -> Result Box_RObj", go_abi173), ("TrivA S6 -> Result u8", go_abi174), ("TrivA String -> Result f64", go_abi175), ("TrivA str -> Result UniquePtr_CObj", go_abi176), ("TrivA Box_RObj -> Result Vec_u8", go_abi177), ("TrivA UniquePtr_CObj -> Result SharedPtr_CObj", go_abi178), ("TrivA sl_u16 -> Result TrivA", go_abi179), ("TrivA TrivA -> Result Eu8", go_abi180), ("TrivA SharedPtr_CObj -> Result arr4_u8", go_abi181), ("SharedPtr_CObj u8 -> ()", go_abi182), ("SharedPtr_CObj u64 -> String", go_abi183), ("SharedPtr_CObj f32 -> S3", go_abi184), ("SharedPtr_CObj f64 -> S6", go_abi185), ("SharedPtr_CObj S2 -> Box_RObj", go_abi186), ("SharedPtr_CObj S3 -> u8", go_abi187), ("SharedPtr_CObj S6 -> f64", go_abi188), ("SharedPtr_CObj String -> UniquePtr_CObj", go_abi189), ("SharedPtr_CObj str -> Vec_u8", go_abi190), ("SharedPtr_CObj Box_RObj -> SharedPtr_CObj", go_abi191), ("SharedPtr_CObj UniquePtr_CObj -> TrivA", go_abi192), ("SharedPtr_CObj sl_u16 -> Eu8", go_abi193), ("SharedPtr_CObj TrivA -> arr4_u8", go_abi194), ("SharedPtr_CObj SharedPtr_CObj -> ()", go_abi195), ("u8 u64 u8 -> String", go_abi196), ("u8 u64 f64 -> S3", go_abi197), ("u8 u64 str -> S6", go_abi198), ("u8 u64 S3 -> Box_RObj", go_abi199), ("u8 f64 u8 -> u8", go_abi200), ("u8 f64 f64 -> f64", go_abi201), ("u8 f64 str -> UniquePtr_CObj", go_abi202), ("u8 f64 S3 -> Vec_u8", go_abi203), ("u8 S3 u8 -> SharedPtr_CObj", go_abi204), ("u8 S3 f64 -> TrivA", go_abi205), ("u8 S3 str -> Eu8", go_abi206), ("u8 S3 S3 -> arr4_u8", go_abi207), ("u8 String u8 -> ()", go_abi208), ("u8 String f64 -> Result String", go_abi209), ("u8 String str -> Result S3", go_abi210), ("u8 String S3 -> Result S6", go_abi211), ("u8 S6 u8 -> Result Box_RObj", go_abi212), ("u8 S6 f64 -> Result u8", go_abi213), ("u8 S6 str -> Result f64", go_abi214), ("u8 S6 S3 -> Result UniquePtr_CObj", go_abi215), ("f32 u64 u8 -> Result Vec_u8", go_abi216), ("f32 u64 f64 -> Result SharedPtr_CObj", go_abi217), ("f32 u64 str -> Result TrivA", go_abi218), ("f32 u64 S3 -> Result Eu8", go_abi219), ("f32 f64 u8 -> Result arr4_u8", go_abi220), ("f32 f64 f64 -> ()", go_abi221), ("f32 f64 str -> String", go_abi222), ("f32 f64 S3 -> S3", go_abi223), ("f32 S3 u8 -> S6", go_abi224), ("f32 S3 f64 -> Box_RObj", go_abi225), ("f32 S3 str -> u8", go_abi226), ("f32 S3 S3 -> f64", go_abi227), ("f32 String u8 -> UniquePtr_CObj", go_abi228), ("f32 String f64 -> Vec_u8", go_abi229), ("f32 String str -> SharedPtr_CObj", go_abi230), ("f32 String S3 -> TrivA", go_abi231), ("f32 S6 u8 -> Eu8", go_abi232), ("f32 S6 f64 -> arr4_u8", go_abi233), ("f32 S6 str -> ()", go_abi234), ("f32 S6 S3 -> String", go_abi235), ("S2 u64 u8 -> S3", go_abi236), ("S2 u64 f64 -> S6", go_abi237), ("S2 u64 str -> Box_RObj", go_abi238), ("S2 u64 S3 -> u8", go_abi239), ("S2 f64 u8 -> f64", go_abi240), ("S2 f64 f64 -> UniquePtr_CObj", go_abi241), ("S2 f64 str -> Vec_u8", go_abi242), ("S2 f64 S3 -> SharedPtr_CObj", go_abi243), ("S2 S3 u8 -> TrivA", go_abi244), ("S2 S3 f64 -> Eu8", go_abi245), ("S2 S3 str -> arr4_u8", go_abi246), ("S2 S3 S3 -> ()", go_abi247), ("S2 String u8 -> Result String", go_abi248), ("S2 String f64 -> Result S3", go_abi249), ("S2 String str -> Result S6", go_abi250), ("S2 String S3 -> Result Box_RObj", go_abi251), ("S2 S6 u8 -> Result u8", go_abi252), ("S2 S6 f64 -> Result f64", go_abi253), ("S2 S6 str -> Result UniquePtr_CObj", go_abi254), ("S2 S6 S3 -> Result Vec_u8", go_abi255), ("S6 u64 u8 -> Result SharedPtr_CObj", go_abi256), ("S6 u64 f64 -> Result TrivA", go_abi257), ("S6 u64 str -> Result Eu8", go_abi258), ("S6 u64 S3 -> Result arr4_u8", go_abi259), ("S6 f64 u8 -> ()", go_abi260), ("S6 f64 f64 -> String", go_abi261), ("S6 f64 str -> S3", go_abi262), ("S6 f64 S3 -> S6", go_abi263), ("S6 S3 u8 -> Box_RObj", go_abi264), ("S6 S3 f64 -> u8", go_abi265), ("S6 S3 str -> f64", go_abi266), ("S6 S3 S3 -> UniquePtr_CObj", go_abi267), ("S6 String u8 -> Vec_u8", go_abi268), ("S6 String f64 -> SharedPtr_CObj", go_abi269), ("S6 String str -> TrivA", go_abi270), ("S6 String S3 -> Eu8", go_abi271), ("S6 S6 u8 -> arr4_u8", go_abi272), ("S6 S6 f64 -> ()", go_abi273), ("S6 S6 str -> String", go_abi274), ("S6 S6 S3 -> S3", go_abi275), ("str u64 u8 -> S6", go_abi276), ("str u64 f64 -> Box_RObj", go_abi277), ("str u64 str -> u8", go_abi278), ("str u64 S3 -> f64", go_abi279), ("str f64 u8 -> UniquePtr_CObj", go_abi280), ("str f64 f64 -> Vec_u8", go_abi281), ("str f64 str -> SharedPtr_CObj", go_abi282), ("str f64 S3 -> TrivA", go_abi283), ("str S3 u8 -> Eu8", go_abi284), ("str S3 f64 -> arr4_u8", go_abi285), ("str S3 str -> ()", go_abi286), ("str S3 S3 -> Result String", go_abi287), ("str String u8 -> Result S3", go_abi288), ("str String f64 -> Result S6", go_abi289), ("str String str -> Result Box_RObj", go_abi290), ("str String S3 -> Result u8", go_abi291), ("str S6 u8 -> Result f64", go_abi292), ("str S6 f64 -> Result UniquePtr_CObj", go_abi293), ("str S6 str -> Result Vec_u8", go_abi294), ("str S6 S3 -> Result SharedPtr_CObj", go_abi295), ("S3 u64 u8 -> Result TrivA", go_abi296), ("S3 u64 f64 -> Result Eu8", go_abi297), ("S3 u64 str -> Result arr4_u8", go_abi298), ("S3 u64 S3 -> ()", go_abi299), ("S3 f64 u8 -> String", go_abi300), ("S3 f64 f64 -> S3", go_abi301), ("S3 f64 str -> S6", go_abi302), ("S3 f64 S3 -> Box_RObj", go_abi303), ("S3 S3 u8 -> u8", go_abi304), ("S3 S3 f64 -> f64", go_abi305), ("S3 S3 str -> UniquePtr_CObj", go_abi306), ("S3 S3 S3 -> Vec_u8", go_abi307), ("S3 String u8 -> SharedPtr_CObj", go_abi308), ("S3 String f64 -> TrivA", go_abi309), ("S3 String str -> Eu8", go_abi310), ("S3 String S3 -> arr4_u8", go_abi311), ("S3 S6 u8 -> ()", go_abi312), ("S3 S6 f64 -> String", go_abi313), ("S3 S6 str -> S3", go_abi314), ("S3 S6 S3 -> S6", go_abi315), ("u8 u64 f32 f64 S2 S3 S6 String str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char -> Box_RObj", go_abi316), ("f32 f64 S2 S3 S6 String str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 u64 -> u8", go_abi317), ("S2 S3 S6 String str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 u64 f32 f64 -> f64", go_abi318), ("S6 String str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 u64 f32 f64 S2 S3 -> UniquePtr_CObj", go_abi319), ("str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 u64 f32 f64 S2 S3 S6 String -> Vec_u8", go_abi320), ("UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 u64 f32 f64 S2 S3 S6 String str Box_RObj -> SharedPtr_CObj", go_abi321), ("bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 u64 f32 f64 S2 S3 S6 String str Box_RObj UniquePtr_CObj sl_u16 -> TrivA", go_abi322), ("TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 u64 f32 f64 S2 S3 S6 String str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 -> Eu8", go_abi323), ("ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 u64 f32 f64 S2 S3 S6 String str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 -> arr4_u8", go_abi324), ("WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 u64 f32 f64 S2 S3 S6 String str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj -> ()", go_abi325), ("ref_RObj mut_S7 i8 c_char u8 u64 f32 f64 S2 S3 S6 String str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 -> Result String", go_abi326), ("i8 c_char u8 u64 f32 f64 S2 S3 S6 String str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 -> Result S3", go_abi327), ("u8 u64 f32 f64 -> Result S6", go_abi328), ("f64 S2 S3 S6 -> Result Box_RObj", go_abi329), ("S6 String str Box_RObj -> Result u8", go_abi330), ("Box_RObj UniquePtr_CObj sl_u16 bool -> Result f64", go_abi331), ("bool Eu8 TrivA arr4_u8 -> Result UniquePtr_CObj", go_abi332), ("arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj -> Result Vec_u8", go_abi333), ("WeakPtr_CObj Vec_u8 ref_RObj mut_S7 -> Result SharedPtr_CObj", go_abi334), ("mut_S7 i8 c_char u8 -> Result TrivA", go_abi335), ("u8 u64 f32 f64 S2 -> Result Eu8", go_abi336), ("f64 S2 S3 S6 String -> Result arr4_u8", go_abi337), ("S6 String str Box_RObj UniquePtr_CObj -> ()", go_abi338), ("Box_RObj UniquePtr_CObj sl_u16 bool Eu8 -> String", go_abi339), ("bool Eu8 TrivA arr4_u8 ref_S2 -> S3", go_abi340), ("arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 -> S6", go_abi341), ("WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 -> Box_RObj", go_abi342), ("mut_S7 i8 c_char u8 u64 -> u8", go_abi343), ("u8 u64 f32 f64 S2 S3 -> f64", go_abi344), ("f64 S2 S3 S6 String str -> UniquePtr_CObj", go_abi345), ("S6 String str Box_RObj UniquePtr_CObj sl_u16 -> Vec_u8", go_abi346), ("Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA -> SharedPtr_CObj", go_abi347), ("bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj -> TrivA", go_abi348), ("arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj -> Eu8", go_abi349), ("WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char -> arr4_u8", go_abi350), ("mut_S7 i8 c_char u8 u64 f32 -> ()", go_abi351), ("u8 u64 f32 f64 S2 S3 S6 -> String", go_abi352), ("f64 S2 S3 S6 String str Box_RObj -> S3", go_abi353), ("S6 String str Box_RObj UniquePtr_CObj sl_u16 bool -> S6", go_abi354), ("Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 -> Box_RObj", go_abi355), ("bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj -> u8", go_abi356), ("arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 -> f64", go_abi357), ("WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 -> UniquePtr_CObj", go_abi358), ("mut_S7 i8 c_char u8 u64 f32 f64 -> Vec_u8", go_abi359), ("u8 u64 f32 f64 S2 S3 S6 String -> SharedPtr_CObj", go_abi360), ("f64 S2 S3 S6 String str Box_RObj UniquePtr_CObj -> TrivA", go_abi361), ("S6 String str Box_RObj UniquePtr_CObj sl_u16 bool Eu8 -> Eu8", go_abi362), ("Box_RObj UniquePtr_CObj sl_u16 bool Eu8 TrivA arr4_u8 ref_S2 -> arr4_u8", go_abi363), ("bool Eu8 TrivA arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 -> ()", go_abi364), ("arr4_u8 ref_S2 SharedPtr_CObj WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 -> Result String", go_abi365), ("WeakPtr_CObj Vec_u8 ref_RObj mut_S7 i8 c_char u8 u64 -> Result S3", go_abi366), ("mut_S7 i8 c_char u8 u64 f32 f64 S2 -> Result S6", go_abi367)];
v.push(rust_system("abi-c09d", fs.iter().flat_map(|f| (0..4).map(move |k| format!("({})({})", f.0, k))).collect(), move |t, key| { for x in t { fs[*x as usize / 4].1(*x as i32 % 4)? } key.extend(t.last().map_or(999u16, |x| *x).to_le_bytes()); Ok(true) }));
v }
