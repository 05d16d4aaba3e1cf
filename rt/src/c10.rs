//! Generated by gen_c10.py.
//! C10: values moved across calls against a model of which slot owns what.
use crate::engine::{rust_system, System};
use crate::ensure;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr};
use std::pin::Pin;
pub use ffi::{Base, CObj, Nest, One, OneT, Sh};
const TEXTS: [&str; 4] = ["", "one", "a text longer than any small string buffer", "\u{1f980}"];
fn text(k: i32) -> String { TEXTS[k as usize].to_owned() }
pub struct RObj { val: i32, id: u64 }
impl RObj { fn new(k: i32) -> Self { RObj { val: k, id: unsafe { vk10_new() } } } }
impl Drop for RObj { fn drop(&mut self) { unsafe { vk10_drop(self.id) } } }
#[repr(C)]
pub struct Tracked { val: i32, pad: i32, id: u64 }
impl Tracked { fn new(k: i32) -> Self { Tracked { val: k, pad: 0, id: unsafe { vk10_new() } } } }
impl Drop for Tracked { fn drop(&mut self) { unsafe { vk10_drop(self.id) } } }
unsafe impl cxx::ExternType for Tracked {
    type Id = cxx::type_id!("c10::Tracked");
    type Kind = cxx::kind::Trivial;
}
unsafe extern "C" {
    fn vk10_new() -> u64;
    fn vk10_drop(id: u64);
}
pub struct E(RObj, String);
impl E { fn new() -> Self { E(RObj::new(7), text(2)) } }
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.1) } }
pub struct RHolder(i32);
#[cxx::bridge(namespace = "c10")]
mod ffi {
    struct Sh { b: Box<RObj>, u: UniquePtr<CObj>, s: String, v: Vec<u8>, p: SharedPtr<CObj> }
    struct One { b: Box<RObj> }
    struct OneT { t: Tracked }
    struct Nest { t: Tracked, n: u8, x: Sh, y: [String; 2], o: One }
    unsafe extern "C++" {
        include!("rt/cc/c10.hpp");
        type CObj;
        type Base;
        type Tracked = crate::c10::Tracked;
        type Holder;
        fn val(self: &CObj) -> i32;
        fn bval(self: &Base) -> i32;
        fn mkcobj(k: i32) -> UniquePtr<CObj>;
        fn mkbase(k: i32) -> UniquePtr<Base>;
        fn mkshared(k: i32) -> SharedPtr<CObj>;
        fn mkustring(s: &CxxString) -> UniquePtr<CxxString>;
        fn mkuvec(k: i32) -> UniquePtr<CxxVector<CObj>>;
        unsafe fn holder() -> *mut Holder;
        fn live() -> i64;
        fn bad() -> bool;
        fn unpack(x: Sh) -> Box<RObj>;
        fn put_box(i: usize, x: Box<RObj>);
        fn take_box(i: usize) -> Box<RObj>;
        fn try_put_box(i: usize, x: Box<RObj>, mode: i32) -> Result<()>;
        fn try_take_box(i: usize, mode: i32) -> Result<Box<RObj>>;
        fn two_box(x: Box<RObj>, y: Box<RObj>, mode: i32) -> Result<Box<RObj>>;
        fn three_box(a: u8, x: Box<RObj>, b: String, y: Box<RObj>, c: &str) -> Box<RObj>;
        fn cb_box(f: fn(Box<RObj>) -> Box<RObj>, x: Box<RObj>) -> Box<RObj>;
        fn cb2_box(f: fn(Box<RObj>, Box<RObj>) -> Box<RObj>, x: Box<RObj>, y: Box<RObj>) -> Box<RObj>;
        fn repl_box(i: usize, x: &mut Box<RObj>);
        fn deep_box(x: Box<RObj>, d: i32, mode: i32) -> Result<Box<RObj>>;
        fn cnew_box(i: usize, k: i32);
        fn cdrop_box(i: usize);
        fn cval_box(i: usize) -> i32;
        fn hput_box(self: &Holder, i: usize, x: Box<RObj>, mode: i32) -> Result<()>;
        fn htake_box(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<Box<RObj>>;
        fn c_rput_box(i: usize, j: usize);
        fn c_rtake_box(i: usize, j: usize);
        fn c_rignore_box(j: usize);
        fn c_rtry_put_box(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_box(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_box(mode: i32) -> bool;
        fn c_rthree_box();
        fn c_rrepl_box(i: usize, j: usize);
        fn c_rdeep_box(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_box(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_box(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_vec(i: usize, x: Vec<RObj>);
        fn take_vec(i: usize) -> Vec<RObj>;
        fn try_put_vec(i: usize, x: Vec<RObj>, mode: i32) -> Result<()>;
        fn try_take_vec(i: usize, mode: i32) -> Result<Vec<RObj>>;
        fn two_vec(x: Vec<RObj>, y: Vec<RObj>, mode: i32) -> Result<Vec<RObj>>;
        fn three_vec(a: u8, x: Vec<RObj>, b: String, y: Vec<RObj>, c: &str) -> Vec<RObj>;
        fn cb_vec(f: fn(Vec<RObj>) -> Vec<RObj>, x: Vec<RObj>) -> Vec<RObj>;
        fn cb2_vec(f: fn(Vec<RObj>, Vec<RObj>) -> Vec<RObj>, x: Vec<RObj>, y: Vec<RObj>) -> Vec<RObj>;
        fn repl_vec(i: usize, x: &mut Vec<RObj>);
        fn deep_vec(x: Vec<RObj>, d: i32, mode: i32) -> Result<Vec<RObj>>;
        fn cnew_vec(i: usize, k: i32);
        fn cdrop_vec(i: usize);
        fn cval_vec(i: usize) -> i32;
        fn hput_vec(self: &Holder, i: usize, x: Vec<RObj>, mode: i32) -> Result<()>;
        fn htake_vec(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<Vec<RObj>>;
        fn c_rput_vec(i: usize, j: usize);
        fn c_rtake_vec(i: usize, j: usize);
        fn c_rignore_vec(j: usize);
        fn c_rtry_put_vec(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_vec(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_vec(mode: i32) -> bool;
        fn c_rthree_vec();
        fn c_rrepl_vec(i: usize, j: usize);
        fn c_rdeep_vec(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_vec(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_vec(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_string(i: usize, x: String);
        fn take_string(i: usize) -> String;
        fn try_put_string(i: usize, x: String, mode: i32) -> Result<()>;
        fn try_take_string(i: usize, mode: i32) -> Result<String>;
        fn two_string(x: String, y: String, mode: i32) -> Result<String>;
        fn three_string(a: u8, x: String, b: String, y: String, c: &str) -> String;
        fn cb_string(f: fn(String) -> String, x: String) -> String;
        fn cb2_string(f: fn(String, String) -> String, x: String, y: String) -> String;
        fn repl_string(i: usize, x: &mut String);
        fn deep_string(x: String, d: i32, mode: i32) -> Result<String>;
        fn cnew_string(i: usize, k: i32);
        fn cdrop_string(i: usize);
        fn cval_string(i: usize) -> i32;
        fn hput_string(self: &Holder, i: usize, x: String, mode: i32) -> Result<()>;
        fn htake_string(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<String>;
        fn c_rput_string(i: usize, j: usize);
        fn c_rtake_string(i: usize, j: usize);
        fn c_rignore_string(j: usize);
        fn c_rtry_put_string(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_string(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_string(mode: i32) -> bool;
        fn c_rthree_string();
        fn c_rrepl_string(i: usize, j: usize);
        fn c_rdeep_string(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_string(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_string(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_unique(i: usize, x: UniquePtr<CObj>);
        fn take_unique(i: usize) -> UniquePtr<CObj>;
        fn try_put_unique(i: usize, x: UniquePtr<CObj>, mode: i32) -> Result<()>;
        fn try_take_unique(i: usize, mode: i32) -> Result<UniquePtr<CObj>>;
        fn two_unique(x: UniquePtr<CObj>, y: UniquePtr<CObj>, mode: i32) -> Result<UniquePtr<CObj>>;
        fn three_unique(a: u8, x: UniquePtr<CObj>, b: String, y: UniquePtr<CObj>, c: &str) -> UniquePtr<CObj>;
        fn cb_unique(f: fn(UniquePtr<CObj>) -> UniquePtr<CObj>, x: UniquePtr<CObj>) -> UniquePtr<CObj>;
        fn cb2_unique(f: fn(UniquePtr<CObj>, UniquePtr<CObj>) -> UniquePtr<CObj>, x: UniquePtr<CObj>, y: UniquePtr<CObj>) -> UniquePtr<CObj>;
        fn repl_unique(i: usize, x: &mut UniquePtr<CObj>);
        fn deep_unique(x: UniquePtr<CObj>, d: i32, mode: i32) -> Result<UniquePtr<CObj>>;
        fn cnew_unique(i: usize, k: i32);
        fn cdrop_unique(i: usize);
        fn cval_unique(i: usize) -> i32;
        fn hput_unique(self: &Holder, i: usize, x: UniquePtr<CObj>, mode: i32) -> Result<()>;
        fn htake_unique(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<UniquePtr<CObj>>;
        fn c_rput_unique(i: usize, j: usize);
        fn c_rtake_unique(i: usize, j: usize);
        fn c_rignore_unique(j: usize);
        fn c_rtry_put_unique(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_unique(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_unique(mode: i32) -> bool;
        fn c_rthree_unique();
        fn c_rrepl_unique(i: usize, j: usize);
        fn c_rdeep_unique(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_unique(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_unique(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_base(i: usize, x: UniquePtr<Base>);
        fn take_base(i: usize) -> UniquePtr<Base>;
        fn try_put_base(i: usize, x: UniquePtr<Base>, mode: i32) -> Result<()>;
        fn try_take_base(i: usize, mode: i32) -> Result<UniquePtr<Base>>;
        fn two_base(x: UniquePtr<Base>, y: UniquePtr<Base>, mode: i32) -> Result<UniquePtr<Base>>;
        fn three_base(a: u8, x: UniquePtr<Base>, b: String, y: UniquePtr<Base>, c: &str) -> UniquePtr<Base>;
        fn cb_base(f: fn(UniquePtr<Base>) -> UniquePtr<Base>, x: UniquePtr<Base>) -> UniquePtr<Base>;
        fn cb2_base(f: fn(UniquePtr<Base>, UniquePtr<Base>) -> UniquePtr<Base>, x: UniquePtr<Base>, y: UniquePtr<Base>) -> UniquePtr<Base>;
        fn repl_base(i: usize, x: &mut UniquePtr<Base>);
        fn deep_base(x: UniquePtr<Base>, d: i32, mode: i32) -> Result<UniquePtr<Base>>;
        fn cnew_base(i: usize, k: i32);
        fn cdrop_base(i: usize);
        fn cval_base(i: usize) -> i32;
        fn hput_base(self: &Holder, i: usize, x: UniquePtr<Base>, mode: i32) -> Result<()>;
        fn htake_base(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<UniquePtr<Base>>;
        fn c_rput_base(i: usize, j: usize);
        fn c_rtake_base(i: usize, j: usize);
        fn c_rignore_base(j: usize);
        fn c_rtry_put_base(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_base(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_base(mode: i32) -> bool;
        fn c_rthree_base();
        fn c_rrepl_base(i: usize, j: usize);
        fn c_rdeep_base(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_base(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_base(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_shared(i: usize, x: SharedPtr<CObj>);
        fn take_shared(i: usize) -> SharedPtr<CObj>;
        fn try_put_shared(i: usize, x: SharedPtr<CObj>, mode: i32) -> Result<()>;
        fn try_take_shared(i: usize, mode: i32) -> Result<SharedPtr<CObj>>;
        fn two_shared(x: SharedPtr<CObj>, y: SharedPtr<CObj>, mode: i32) -> Result<SharedPtr<CObj>>;
        fn three_shared(a: u8, x: SharedPtr<CObj>, b: String, y: SharedPtr<CObj>, c: &str) -> SharedPtr<CObj>;
        fn cb_shared(f: fn(SharedPtr<CObj>) -> SharedPtr<CObj>, x: SharedPtr<CObj>) -> SharedPtr<CObj>;
        fn cb2_shared(f: fn(SharedPtr<CObj>, SharedPtr<CObj>) -> SharedPtr<CObj>, x: SharedPtr<CObj>, y: SharedPtr<CObj>) -> SharedPtr<CObj>;
        fn repl_shared(i: usize, x: &mut SharedPtr<CObj>);
        fn deep_shared(x: SharedPtr<CObj>, d: i32, mode: i32) -> Result<SharedPtr<CObj>>;
        fn cnew_shared(i: usize, k: i32);
        fn cdrop_shared(i: usize);
        fn cval_shared(i: usize) -> i32;
        fn hput_shared(self: &Holder, i: usize, x: SharedPtr<CObj>, mode: i32) -> Result<()>;
        fn htake_shared(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<SharedPtr<CObj>>;
        fn c_rput_shared(i: usize, j: usize);
        fn c_rtake_shared(i: usize, j: usize);
        fn c_rignore_shared(j: usize);
        fn c_rtry_put_shared(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_shared(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_shared(mode: i32) -> bool;
        fn c_rthree_shared();
        fn c_rrepl_shared(i: usize, j: usize);
        fn c_rdeep_shared(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_shared(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_shared(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_ustring(i: usize, x: UniquePtr<CxxString>);
        fn take_ustring(i: usize) -> UniquePtr<CxxString>;
        fn try_put_ustring(i: usize, x: UniquePtr<CxxString>, mode: i32) -> Result<()>;
        fn try_take_ustring(i: usize, mode: i32) -> Result<UniquePtr<CxxString>>;
        fn two_ustring(x: UniquePtr<CxxString>, y: UniquePtr<CxxString>, mode: i32) -> Result<UniquePtr<CxxString>>;
        fn three_ustring(a: u8, x: UniquePtr<CxxString>, b: String, y: UniquePtr<CxxString>, c: &str) -> UniquePtr<CxxString>;
        fn cb_ustring(f: fn(UniquePtr<CxxString>) -> UniquePtr<CxxString>, x: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn cb2_ustring(f: fn(UniquePtr<CxxString>, UniquePtr<CxxString>) -> UniquePtr<CxxString>, x: UniquePtr<CxxString>, y: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn repl_ustring(i: usize, x: &mut UniquePtr<CxxString>);
        fn deep_ustring(x: UniquePtr<CxxString>, d: i32, mode: i32) -> Result<UniquePtr<CxxString>>;
        fn cnew_ustring(i: usize, k: i32);
        fn cdrop_ustring(i: usize);
        fn cval_ustring(i: usize) -> i32;
        fn hput_ustring(self: &Holder, i: usize, x: UniquePtr<CxxString>, mode: i32) -> Result<()>;
        fn htake_ustring(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<UniquePtr<CxxString>>;
        fn c_rput_ustring(i: usize, j: usize);
        fn c_rtake_ustring(i: usize, j: usize);
        fn c_rignore_ustring(j: usize);
        fn c_rtry_put_ustring(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_ustring(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_ustring(mode: i32) -> bool;
        fn c_rthree_ustring();
        fn c_rrepl_ustring(i: usize, j: usize);
        fn c_rdeep_ustring(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_ustring(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_ustring(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_uvec(i: usize, x: UniquePtr<CxxVector<CObj>>);
        fn take_uvec(i: usize) -> UniquePtr<CxxVector<CObj>>;
        fn try_put_uvec(i: usize, x: UniquePtr<CxxVector<CObj>>, mode: i32) -> Result<()>;
        fn try_take_uvec(i: usize, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>>;
        fn two_uvec(x: UniquePtr<CxxVector<CObj>>, y: UniquePtr<CxxVector<CObj>>, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>>;
        fn three_uvec(a: u8, x: UniquePtr<CxxVector<CObj>>, b: String, y: UniquePtr<CxxVector<CObj>>, c: &str) -> UniquePtr<CxxVector<CObj>>;
        fn cb_uvec(f: fn(UniquePtr<CxxVector<CObj>>) -> UniquePtr<CxxVector<CObj>>, x: UniquePtr<CxxVector<CObj>>) -> UniquePtr<CxxVector<CObj>>;
        fn cb2_uvec(f: fn(UniquePtr<CxxVector<CObj>>, UniquePtr<CxxVector<CObj>>) -> UniquePtr<CxxVector<CObj>>, x: UniquePtr<CxxVector<CObj>>, y: UniquePtr<CxxVector<CObj>>) -> UniquePtr<CxxVector<CObj>>;
        fn repl_uvec(i: usize, x: &mut UniquePtr<CxxVector<CObj>>);
        fn deep_uvec(x: UniquePtr<CxxVector<CObj>>, d: i32, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>>;
        fn cnew_uvec(i: usize, k: i32);
        fn cdrop_uvec(i: usize);
        fn cval_uvec(i: usize) -> i32;
        fn hput_uvec(self: &Holder, i: usize, x: UniquePtr<CxxVector<CObj>>, mode: i32) -> Result<()>;
        fn htake_uvec(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>>;
        fn c_rput_uvec(i: usize, j: usize);
        fn c_rtake_uvec(i: usize, j: usize);
        fn c_rignore_uvec(j: usize);
        fn c_rtry_put_uvec(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_uvec(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_uvec(mode: i32) -> bool;
        fn c_rthree_uvec();
        fn c_rrepl_uvec(i: usize, j: usize);
        fn c_rdeep_uvec(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_uvec(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_uvec(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_sh(i: usize, x: Sh);
        fn take_sh(i: usize) -> Sh;
        fn try_put_sh(i: usize, x: Sh, mode: i32) -> Result<()>;
        fn try_take_sh(i: usize, mode: i32) -> Result<Sh>;
        fn two_sh(x: Sh, y: Sh, mode: i32) -> Result<Sh>;
        fn three_sh(a: u8, x: Sh, b: String, y: Sh, c: &str) -> Sh;
        fn cb_sh(f: fn(Sh) -> Sh, x: Sh) -> Sh;
        fn cb2_sh(f: fn(Sh, Sh) -> Sh, x: Sh, y: Sh) -> Sh;
        fn repl_sh(i: usize, x: &mut Sh);
        fn deep_sh(x: Sh, d: i32, mode: i32) -> Result<Sh>;
        fn cnew_sh(i: usize, k: i32);
        fn cdrop_sh(i: usize);
        fn cval_sh(i: usize) -> i32;
        fn hput_sh(self: &Holder, i: usize, x: Sh, mode: i32) -> Result<()>;
        fn htake_sh(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<Sh>;
        fn c_rput_sh(i: usize, j: usize);
        fn c_rtake_sh(i: usize, j: usize);
        fn c_rignore_sh(j: usize);
        fn c_rtry_put_sh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_sh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_sh(mode: i32) -> bool;
        fn c_rthree_sh();
        fn c_rrepl_sh(i: usize, j: usize);
        fn c_rdeep_sh(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_sh(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_sh(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_vecsh(i: usize, x: Vec<Sh>);
        fn take_vecsh(i: usize) -> Vec<Sh>;
        fn try_put_vecsh(i: usize, x: Vec<Sh>, mode: i32) -> Result<()>;
        fn try_take_vecsh(i: usize, mode: i32) -> Result<Vec<Sh>>;
        fn two_vecsh(x: Vec<Sh>, y: Vec<Sh>, mode: i32) -> Result<Vec<Sh>>;
        fn three_vecsh(a: u8, x: Vec<Sh>, b: String, y: Vec<Sh>, c: &str) -> Vec<Sh>;
        fn cb_vecsh(f: fn(Vec<Sh>) -> Vec<Sh>, x: Vec<Sh>) -> Vec<Sh>;
        fn cb2_vecsh(f: fn(Vec<Sh>, Vec<Sh>) -> Vec<Sh>, x: Vec<Sh>, y: Vec<Sh>) -> Vec<Sh>;
        fn repl_vecsh(i: usize, x: &mut Vec<Sh>);
        fn deep_vecsh(x: Vec<Sh>, d: i32, mode: i32) -> Result<Vec<Sh>>;
        fn cnew_vecsh(i: usize, k: i32);
        fn cdrop_vecsh(i: usize);
        fn cval_vecsh(i: usize) -> i32;
        fn hput_vecsh(self: &Holder, i: usize, x: Vec<Sh>, mode: i32) -> Result<()>;
        fn htake_vecsh(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<Vec<Sh>>;
        fn c_rput_vecsh(i: usize, j: usize);
        fn c_rtake_vecsh(i: usize, j: usize);
        fn c_rignore_vecsh(j: usize);
        fn c_rtry_put_vecsh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_vecsh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_vecsh(mode: i32) -> bool;
        fn c_rthree_vecsh();
        fn c_rrepl_vecsh(i: usize, j: usize);
        fn c_rdeep_vecsh(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_vecsh(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_vecsh(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_boxsh(i: usize, x: Box<Sh>);
        fn take_boxsh(i: usize) -> Box<Sh>;
        fn try_put_boxsh(i: usize, x: Box<Sh>, mode: i32) -> Result<()>;
        fn try_take_boxsh(i: usize, mode: i32) -> Result<Box<Sh>>;
        fn two_boxsh(x: Box<Sh>, y: Box<Sh>, mode: i32) -> Result<Box<Sh>>;
        fn three_boxsh(a: u8, x: Box<Sh>, b: String, y: Box<Sh>, c: &str) -> Box<Sh>;
        fn cb_boxsh(f: fn(Box<Sh>) -> Box<Sh>, x: Box<Sh>) -> Box<Sh>;
        fn cb2_boxsh(f: fn(Box<Sh>, Box<Sh>) -> Box<Sh>, x: Box<Sh>, y: Box<Sh>) -> Box<Sh>;
        fn repl_boxsh(i: usize, x: &mut Box<Sh>);
        fn deep_boxsh(x: Box<Sh>, d: i32, mode: i32) -> Result<Box<Sh>>;
        fn cnew_boxsh(i: usize, k: i32);
        fn cdrop_boxsh(i: usize);
        fn cval_boxsh(i: usize) -> i32;
        fn hput_boxsh(self: &Holder, i: usize, x: Box<Sh>, mode: i32) -> Result<()>;
        fn htake_boxsh(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<Box<Sh>>;
        fn c_rput_boxsh(i: usize, j: usize);
        fn c_rtake_boxsh(i: usize, j: usize);
        fn c_rignore_boxsh(j: usize);
        fn c_rtry_put_boxsh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_boxsh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_boxsh(mode: i32) -> bool;
        fn c_rthree_boxsh();
        fn c_rrepl_boxsh(i: usize, j: usize);
        fn c_rdeep_boxsh(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_boxsh(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_boxsh(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_uniquesh(i: usize, x: UniquePtr<Sh>);
        fn take_uniquesh(i: usize) -> UniquePtr<Sh>;
        fn try_put_uniquesh(i: usize, x: UniquePtr<Sh>, mode: i32) -> Result<()>;
        fn try_take_uniquesh(i: usize, mode: i32) -> Result<UniquePtr<Sh>>;
        fn two_uniquesh(x: UniquePtr<Sh>, y: UniquePtr<Sh>, mode: i32) -> Result<UniquePtr<Sh>>;
        fn three_uniquesh(a: u8, x: UniquePtr<Sh>, b: String, y: UniquePtr<Sh>, c: &str) -> UniquePtr<Sh>;
        fn cb_uniquesh(f: fn(UniquePtr<Sh>) -> UniquePtr<Sh>, x: UniquePtr<Sh>) -> UniquePtr<Sh>;
        fn cb2_uniquesh(f: fn(UniquePtr<Sh>, UniquePtr<Sh>) -> UniquePtr<Sh>, x: UniquePtr<Sh>, y: UniquePtr<Sh>) -> UniquePtr<Sh>;
        fn repl_uniquesh(i: usize, x: &mut UniquePtr<Sh>);
        fn deep_uniquesh(x: UniquePtr<Sh>, d: i32, mode: i32) -> Result<UniquePtr<Sh>>;
        fn cnew_uniquesh(i: usize, k: i32);
        fn cdrop_uniquesh(i: usize);
        fn cval_uniquesh(i: usize) -> i32;
        fn hput_uniquesh(self: &Holder, i: usize, x: UniquePtr<Sh>, mode: i32) -> Result<()>;
        fn htake_uniquesh(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<UniquePtr<Sh>>;
        fn c_rput_uniquesh(i: usize, j: usize);
        fn c_rtake_uniquesh(i: usize, j: usize);
        fn c_rignore_uniquesh(j: usize);
        fn c_rtry_put_uniquesh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_uniquesh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_uniquesh(mode: i32) -> bool;
        fn c_rthree_uniquesh();
        fn c_rrepl_uniquesh(i: usize, j: usize);
        fn c_rdeep_uniquesh(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_uniquesh(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_uniquesh(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_sharedsh(i: usize, x: SharedPtr<Sh>);
        fn take_sharedsh(i: usize) -> SharedPtr<Sh>;
        fn try_put_sharedsh(i: usize, x: SharedPtr<Sh>, mode: i32) -> Result<()>;
        fn try_take_sharedsh(i: usize, mode: i32) -> Result<SharedPtr<Sh>>;
        fn two_sharedsh(x: SharedPtr<Sh>, y: SharedPtr<Sh>, mode: i32) -> Result<SharedPtr<Sh>>;
        fn three_sharedsh(a: u8, x: SharedPtr<Sh>, b: String, y: SharedPtr<Sh>, c: &str) -> SharedPtr<Sh>;
        fn cb_sharedsh(f: fn(SharedPtr<Sh>) -> SharedPtr<Sh>, x: SharedPtr<Sh>) -> SharedPtr<Sh>;
        fn cb2_sharedsh(f: fn(SharedPtr<Sh>, SharedPtr<Sh>) -> SharedPtr<Sh>, x: SharedPtr<Sh>, y: SharedPtr<Sh>) -> SharedPtr<Sh>;
        fn repl_sharedsh(i: usize, x: &mut SharedPtr<Sh>);
        fn deep_sharedsh(x: SharedPtr<Sh>, d: i32, mode: i32) -> Result<SharedPtr<Sh>>;
        fn cnew_sharedsh(i: usize, k: i32);
        fn cdrop_sharedsh(i: usize);
        fn cval_sharedsh(i: usize) -> i32;
        fn hput_sharedsh(self: &Holder, i: usize, x: SharedPtr<Sh>, mode: i32) -> Result<()>;
        fn htake_sharedsh(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<SharedPtr<Sh>>;
        fn c_rput_sharedsh(i: usize, j: usize);
        fn c_rtake_sharedsh(i: usize, j: usize);
        fn c_rignore_sharedsh(j: usize);
        fn c_rtry_put_sharedsh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_sharedsh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_sharedsh(mode: i32) -> bool;
        fn c_rthree_sharedsh();
        fn c_rrepl_sharedsh(i: usize, j: usize);
        fn c_rdeep_sharedsh(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_sharedsh(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_sharedsh(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_arrbox(i: usize, x: [Box<RObj>; 2]);
        fn take_arrbox(i: usize) -> [Box<RObj>; 2];
        fn try_put_arrbox(i: usize, x: [Box<RObj>; 2], mode: i32) -> Result<()>;
        fn try_take_arrbox(i: usize, mode: i32) -> Result<[Box<RObj>; 2]>;
        fn two_arrbox(x: [Box<RObj>; 2], y: [Box<RObj>; 2], mode: i32) -> Result<[Box<RObj>; 2]>;
        fn three_arrbox(a: u8, x: [Box<RObj>; 2], b: String, y: [Box<RObj>; 2], c: &str) -> [Box<RObj>; 2];
        fn cb_arrbox(f: fn([Box<RObj>; 2]) -> [Box<RObj>; 2], x: [Box<RObj>; 2]) -> [Box<RObj>; 2];
        fn cb2_arrbox(f: fn([Box<RObj>; 2], [Box<RObj>; 2]) -> [Box<RObj>; 2], x: [Box<RObj>; 2], y: [Box<RObj>; 2]) -> [Box<RObj>; 2];
        fn repl_arrbox(i: usize, x: &mut [Box<RObj>; 2]);
        fn deep_arrbox(x: [Box<RObj>; 2], d: i32, mode: i32) -> Result<[Box<RObj>; 2]>;
        fn cnew_arrbox(i: usize, k: i32);
        fn cdrop_arrbox(i: usize);
        fn cval_arrbox(i: usize) -> i32;
        fn hput_arrbox(self: &Holder, i: usize, x: [Box<RObj>; 2], mode: i32) -> Result<()>;
        fn htake_arrbox(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<[Box<RObj>; 2]>;
        fn c_rput_arrbox(i: usize, j: usize);
        fn c_rtake_arrbox(i: usize, j: usize);
        fn c_rignore_arrbox(j: usize);
        fn c_rtry_put_arrbox(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_arrbox(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_arrbox(mode: i32) -> bool;
        fn c_rthree_arrbox();
        fn c_rrepl_arrbox(i: usize, j: usize);
        fn c_rdeep_arrbox(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_arrbox(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_arrbox(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_arrsh(i: usize, x: [Sh; 2]);
        fn take_arrsh(i: usize) -> [Sh; 2];
        fn try_put_arrsh(i: usize, x: [Sh; 2], mode: i32) -> Result<()>;
        fn try_take_arrsh(i: usize, mode: i32) -> Result<[Sh; 2]>;
        fn two_arrsh(x: [Sh; 2], y: [Sh; 2], mode: i32) -> Result<[Sh; 2]>;
        fn three_arrsh(a: u8, x: [Sh; 2], b: String, y: [Sh; 2], c: &str) -> [Sh; 2];
        fn cb_arrsh(f: fn([Sh; 2]) -> [Sh; 2], x: [Sh; 2]) -> [Sh; 2];
        fn cb2_arrsh(f: fn([Sh; 2], [Sh; 2]) -> [Sh; 2], x: [Sh; 2], y: [Sh; 2]) -> [Sh; 2];
        fn repl_arrsh(i: usize, x: &mut [Sh; 2]);
        fn deep_arrsh(x: [Sh; 2], d: i32, mode: i32) -> Result<[Sh; 2]>;
        fn cnew_arrsh(i: usize, k: i32);
        fn cdrop_arrsh(i: usize);
        fn cval_arrsh(i: usize) -> i32;
        fn hput_arrsh(self: &Holder, i: usize, x: [Sh; 2], mode: i32) -> Result<()>;
        fn htake_arrsh(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<[Sh; 2]>;
        fn c_rput_arrsh(i: usize, j: usize);
        fn c_rtake_arrsh(i: usize, j: usize);
        fn c_rignore_arrsh(j: usize);
        fn c_rtry_put_arrsh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_arrsh(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_arrsh(mode: i32) -> bool;
        fn c_rthree_arrsh();
        fn c_rrepl_arrsh(i: usize, j: usize);
        fn c_rdeep_arrsh(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_arrsh(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_arrsh(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_tracked(i: usize, x: Tracked);
        fn take_tracked(i: usize) -> Tracked;
        fn try_put_tracked(i: usize, x: Tracked, mode: i32) -> Result<()>;
        fn try_take_tracked(i: usize, mode: i32) -> Result<Tracked>;
        fn two_tracked(x: Tracked, y: Tracked, mode: i32) -> Result<Tracked>;
        fn three_tracked(a: u8, x: Tracked, b: String, y: Tracked, c: &str) -> Tracked;
        fn cb_tracked(f: fn(Tracked) -> Tracked, x: Tracked) -> Tracked;
        fn cb2_tracked(f: fn(Tracked, Tracked) -> Tracked, x: Tracked, y: Tracked) -> Tracked;
        fn repl_tracked(i: usize, x: &mut Tracked);
        fn deep_tracked(x: Tracked, d: i32, mode: i32) -> Result<Tracked>;
        fn cnew_tracked(i: usize, k: i32);
        fn cdrop_tracked(i: usize);
        fn cval_tracked(i: usize) -> i32;
        fn hput_tracked(self: &Holder, i: usize, x: Tracked, mode: i32) -> Result<()>;
        fn htake_tracked(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<Tracked>;
        fn c_rput_tracked(i: usize, j: usize);
        fn c_rtake_tracked(i: usize, j: usize);
        fn c_rignore_tracked(j: usize);
        fn c_rtry_put_tracked(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_tracked(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_tracked(mode: i32) -> bool;
        fn c_rthree_tracked();
        fn c_rrepl_tracked(i: usize, j: usize);
        fn c_rdeep_tracked(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_tracked(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_tracked(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_vectr(i: usize, x: Vec<Tracked>);
        fn take_vectr(i: usize) -> Vec<Tracked>;
        fn try_put_vectr(i: usize, x: Vec<Tracked>, mode: i32) -> Result<()>;
        fn try_take_vectr(i: usize, mode: i32) -> Result<Vec<Tracked>>;
        fn two_vectr(x: Vec<Tracked>, y: Vec<Tracked>, mode: i32) -> Result<Vec<Tracked>>;
        fn three_vectr(a: u8, x: Vec<Tracked>, b: String, y: Vec<Tracked>, c: &str) -> Vec<Tracked>;
        fn cb_vectr(f: fn(Vec<Tracked>) -> Vec<Tracked>, x: Vec<Tracked>) -> Vec<Tracked>;
        fn cb2_vectr(f: fn(Vec<Tracked>, Vec<Tracked>) -> Vec<Tracked>, x: Vec<Tracked>, y: Vec<Tracked>) -> Vec<Tracked>;
        fn repl_vectr(i: usize, x: &mut Vec<Tracked>);
        fn deep_vectr(x: Vec<Tracked>, d: i32, mode: i32) -> Result<Vec<Tracked>>;
        fn cnew_vectr(i: usize, k: i32);
        fn cdrop_vectr(i: usize);
        fn cval_vectr(i: usize) -> i32;
        fn hput_vectr(self: &Holder, i: usize, x: Vec<Tracked>, mode: i32) -> Result<()>;
        fn htake_vectr(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<Vec<Tracked>>;
        fn c_rput_vectr(i: usize, j: usize);
        fn c_rtake_vectr(i: usize, j: usize);
        fn c_rignore_vectr(j: usize);
        fn c_rtry_put_vectr(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_vectr(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_vectr(mode: i32) -> bool;
        fn c_rthree_vectr();
        fn c_rrepl_vectr(i: usize, j: usize);
        fn c_rdeep_vectr(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_vectr(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_vectr(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_boxtr(i: usize, x: Box<Tracked>);
        fn take_boxtr(i: usize) -> Box<Tracked>;
        fn try_put_boxtr(i: usize, x: Box<Tracked>, mode: i32) -> Result<()>;
        fn try_take_boxtr(i: usize, mode: i32) -> Result<Box<Tracked>>;
        fn two_boxtr(x: Box<Tracked>, y: Box<Tracked>, mode: i32) -> Result<Box<Tracked>>;
        fn three_boxtr(a: u8, x: Box<Tracked>, b: String, y: Box<Tracked>, c: &str) -> Box<Tracked>;
        fn cb_boxtr(f: fn(Box<Tracked>) -> Box<Tracked>, x: Box<Tracked>) -> Box<Tracked>;
        fn cb2_boxtr(f: fn(Box<Tracked>, Box<Tracked>) -> Box<Tracked>, x: Box<Tracked>, y: Box<Tracked>) -> Box<Tracked>;
        fn repl_boxtr(i: usize, x: &mut Box<Tracked>);
        fn deep_boxtr(x: Box<Tracked>, d: i32, mode: i32) -> Result<Box<Tracked>>;
        fn cnew_boxtr(i: usize, k: i32);
        fn cdrop_boxtr(i: usize);
        fn cval_boxtr(i: usize) -> i32;
        fn hput_boxtr(self: &Holder, i: usize, x: Box<Tracked>, mode: i32) -> Result<()>;
        fn htake_boxtr(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<Box<Tracked>>;
        fn c_rput_boxtr(i: usize, j: usize);
        fn c_rtake_boxtr(i: usize, j: usize);
        fn c_rignore_boxtr(j: usize);
        fn c_rtry_put_boxtr(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_boxtr(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_boxtr(mode: i32) -> bool;
        fn c_rthree_boxtr();
        fn c_rrepl_boxtr(i: usize, j: usize);
        fn c_rdeep_boxtr(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_boxtr(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_boxtr(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_vecstr(i: usize, x: Vec<String>);
        fn take_vecstr(i: usize) -> Vec<String>;
        fn try_put_vecstr(i: usize, x: Vec<String>, mode: i32) -> Result<()>;
        fn try_take_vecstr(i: usize, mode: i32) -> Result<Vec<String>>;
        fn two_vecstr(x: Vec<String>, y: Vec<String>, mode: i32) -> Result<Vec<String>>;
        fn three_vecstr(a: u8, x: Vec<String>, b: String, y: Vec<String>, c: &str) -> Vec<String>;
        fn cb_vecstr(f: fn(Vec<String>) -> Vec<String>, x: Vec<String>) -> Vec<String>;
        fn cb2_vecstr(f: fn(Vec<String>, Vec<String>) -> Vec<String>, x: Vec<String>, y: Vec<String>) -> Vec<String>;
        fn repl_vecstr(i: usize, x: &mut Vec<String>);
        fn deep_vecstr(x: Vec<String>, d: i32, mode: i32) -> Result<Vec<String>>;
        fn cnew_vecstr(i: usize, k: i32);
        fn cdrop_vecstr(i: usize);
        fn cval_vecstr(i: usize) -> i32;
        fn hput_vecstr(self: &Holder, i: usize, x: Vec<String>, mode: i32) -> Result<()>;
        fn htake_vecstr(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<Vec<String>>;
        fn c_rput_vecstr(i: usize, j: usize);
        fn c_rtake_vecstr(i: usize, j: usize);
        fn c_rignore_vecstr(j: usize);
        fn c_rtry_put_vecstr(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_vecstr(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_vecstr(mode: i32) -> bool;
        fn c_rthree_vecstr();
        fn c_rrepl_vecstr(i: usize, j: usize);
        fn c_rdeep_vecstr(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_vecstr(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_vecstr(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_one(i: usize, x: One);
        fn take_one(i: usize) -> One;
        fn try_put_one(i: usize, x: One, mode: i32) -> Result<()>;
        fn try_take_one(i: usize, mode: i32) -> Result<One>;
        fn two_one(x: One, y: One, mode: i32) -> Result<One>;
        fn three_one(a: u8, x: One, b: String, y: One, c: &str) -> One;
        fn cb_one(f: fn(One) -> One, x: One) -> One;
        fn cb2_one(f: fn(One, One) -> One, x: One, y: One) -> One;
        fn repl_one(i: usize, x: &mut One);
        fn deep_one(x: One, d: i32, mode: i32) -> Result<One>;
        fn cnew_one(i: usize, k: i32);
        fn cdrop_one(i: usize);
        fn cval_one(i: usize) -> i32;
        fn hput_one(self: &Holder, i: usize, x: One, mode: i32) -> Result<()>;
        fn htake_one(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<One>;
        fn c_rput_one(i: usize, j: usize);
        fn c_rtake_one(i: usize, j: usize);
        fn c_rignore_one(j: usize);
        fn c_rtry_put_one(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_one(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_one(mode: i32) -> bool;
        fn c_rthree_one();
        fn c_rrepl_one(i: usize, j: usize);
        fn c_rdeep_one(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_one(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_one(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_onet(i: usize, x: OneT);
        fn take_onet(i: usize) -> OneT;
        fn try_put_onet(i: usize, x: OneT, mode: i32) -> Result<()>;
        fn try_take_onet(i: usize, mode: i32) -> Result<OneT>;
        fn two_onet(x: OneT, y: OneT, mode: i32) -> Result<OneT>;
        fn three_onet(a: u8, x: OneT, b: String, y: OneT, c: &str) -> OneT;
        fn cb_onet(f: fn(OneT) -> OneT, x: OneT) -> OneT;
        fn cb2_onet(f: fn(OneT, OneT) -> OneT, x: OneT, y: OneT) -> OneT;
        fn repl_onet(i: usize, x: &mut OneT);
        fn deep_onet(x: OneT, d: i32, mode: i32) -> Result<OneT>;
        fn cnew_onet(i: usize, k: i32);
        fn cdrop_onet(i: usize);
        fn cval_onet(i: usize) -> i32;
        fn hput_onet(self: &Holder, i: usize, x: OneT, mode: i32) -> Result<()>;
        fn htake_onet(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<OneT>;
        fn c_rput_onet(i: usize, j: usize);
        fn c_rtake_onet(i: usize, j: usize);
        fn c_rignore_onet(j: usize);
        fn c_rtry_put_onet(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_onet(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_onet(mode: i32) -> bool;
        fn c_rthree_onet();
        fn c_rrepl_onet(i: usize, j: usize);
        fn c_rdeep_onet(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_onet(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_onet(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
        fn put_nest(i: usize, x: Nest);
        fn take_nest(i: usize) -> Nest;
        fn try_put_nest(i: usize, x: Nest, mode: i32) -> Result<()>;
        fn try_take_nest(i: usize, mode: i32) -> Result<Nest>;
        fn two_nest(x: Nest, y: Nest, mode: i32) -> Result<Nest>;
        fn three_nest(a: u8, x: Nest, b: String, y: Nest, c: &str) -> Nest;
        fn cb_nest(f: fn(Nest) -> Nest, x: Nest) -> Nest;
        fn cb2_nest(f: fn(Nest, Nest) -> Nest, x: Nest, y: Nest) -> Nest;
        fn repl_nest(i: usize, x: &mut Nest);
        fn deep_nest(x: Nest, d: i32, mode: i32) -> Result<Nest>;
        fn cnew_nest(i: usize, k: i32);
        fn cdrop_nest(i: usize);
        fn cval_nest(i: usize) -> i32;
        fn hput_nest(self: &Holder, i: usize, x: Nest, mode: i32) -> Result<()>;
        fn htake_nest(self: Pin<&mut Holder>, i: usize, mode: i32) -> Result<Nest>;
        fn c_rput_nest(i: usize, j: usize);
        fn c_rtake_nest(i: usize, j: usize);
        fn c_rignore_nest(j: usize);
        fn c_rtry_put_nest(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtry_take_nest(i: usize, j: usize, mode: i32) -> bool;
        fn c_rtwo_nest(mode: i32) -> bool;
        fn c_rthree_nest();
        fn c_rrepl_nest(i: usize, j: usize);
        fn c_rdeep_nest(i: usize, d: i32, mode: i32) -> bool;
        fn c_rhput_nest(h: &RHolder, i: usize, j: usize, mode: i32) -> bool;
        fn c_rhtake_nest(h: Pin<&mut RHolder>, i: usize, j: usize, mode: i32) -> bool;
    }
    extern "Rust" {
        type RObj;
        type RHolder;
        fn mkrobj(k: i32) -> Box<RObj>;
        fn mkvec(k: i32) -> Vec<RObj>;
        fn rval(x: &RObj) -> i32;
        fn rput_box(j: usize, x: Box<RObj>);
        fn rtake_box(j: usize) -> Box<RObj>;
        fn rtry_put_box(j: usize, x: Box<RObj>, mode: i32) -> Result<()>;
        fn rtry_take_box(j: usize, mode: i32) -> Result<Box<RObj>>;
        fn rtwo_box(x: Box<RObj>, y: Box<RObj>, mode: i32) -> Result<Box<RObj>>;
        fn rthree_box(a: u8, x: Box<RObj>, b: String, y: Box<RObj>, c: &str) -> Box<RObj>;
        fn rrepl_box(j: usize, x: &mut Box<RObj>);
        fn rdeep_box(x: Box<RObj>, d: i32, mode: i32) -> Result<Box<RObj>>;
        fn rhput_box(self: &RHolder, j: usize, x: Box<RObj>, mode: i32) -> Result<()>;
        fn rhtake_box(self: &mut RHolder, j: usize, mode: i32) -> Result<Box<RObj>>;
        fn rput_vec(j: usize, x: Vec<RObj>);
        fn rtake_vec(j: usize) -> Vec<RObj>;
        fn rtry_put_vec(j: usize, x: Vec<RObj>, mode: i32) -> Result<()>;
        fn rtry_take_vec(j: usize, mode: i32) -> Result<Vec<RObj>>;
        fn rtwo_vec(x: Vec<RObj>, y: Vec<RObj>, mode: i32) -> Result<Vec<RObj>>;
        fn rthree_vec(a: u8, x: Vec<RObj>, b: String, y: Vec<RObj>, c: &str) -> Vec<RObj>;
        fn rrepl_vec(j: usize, x: &mut Vec<RObj>);
        fn rdeep_vec(x: Vec<RObj>, d: i32, mode: i32) -> Result<Vec<RObj>>;
        fn rhput_vec(self: &RHolder, j: usize, x: Vec<RObj>, mode: i32) -> Result<()>;
        fn rhtake_vec(self: &mut RHolder, j: usize, mode: i32) -> Result<Vec<RObj>>;
        fn rput_string(j: usize, x: String);
        fn rtake_string(j: usize) -> String;
        fn rtry_put_string(j: usize, x: String, mode: i32) -> Result<()>;
        fn rtry_take_string(j: usize, mode: i32) -> Result<String>;
        fn rtwo_string(x: String, y: String, mode: i32) -> Result<String>;
        fn rthree_string(a: u8, x: String, b: String, y: String, c: &str) -> String;
        fn rrepl_string(j: usize, x: &mut String);
        fn rdeep_string(x: String, d: i32, mode: i32) -> Result<String>;
        fn rhput_string(self: &RHolder, j: usize, x: String, mode: i32) -> Result<()>;
        fn rhtake_string(self: &mut RHolder, j: usize, mode: i32) -> Result<String>;
        fn rput_unique(j: usize, x: UniquePtr<CObj>);
        fn rtake_unique(j: usize) -> UniquePtr<CObj>;
        fn rtry_put_unique(j: usize, x: UniquePtr<CObj>, mode: i32) -> Result<()>;
        fn rtry_take_unique(j: usize, mode: i32) -> Result<UniquePtr<CObj>>;
        fn rtwo_unique(x: UniquePtr<CObj>, y: UniquePtr<CObj>, mode: i32) -> Result<UniquePtr<CObj>>;
        fn rthree_unique(a: u8, x: UniquePtr<CObj>, b: String, y: UniquePtr<CObj>, c: &str) -> UniquePtr<CObj>;
        fn rrepl_unique(j: usize, x: &mut UniquePtr<CObj>);
        fn rdeep_unique(x: UniquePtr<CObj>, d: i32, mode: i32) -> Result<UniquePtr<CObj>>;
        fn rhput_unique(self: &RHolder, j: usize, x: UniquePtr<CObj>, mode: i32) -> Result<()>;
        fn rhtake_unique(self: &mut RHolder, j: usize, mode: i32) -> Result<UniquePtr<CObj>>;
        fn rput_base(j: usize, x: UniquePtr<Base>);
        fn rtake_base(j: usize) -> UniquePtr<Base>;
        fn rtry_put_base(j: usize, x: UniquePtr<Base>, mode: i32) -> Result<()>;
        fn rtry_take_base(j: usize, mode: i32) -> Result<UniquePtr<Base>>;
        fn rtwo_base(x: UniquePtr<Base>, y: UniquePtr<Base>, mode: i32) -> Result<UniquePtr<Base>>;
        fn rthree_base(a: u8, x: UniquePtr<Base>, b: String, y: UniquePtr<Base>, c: &str) -> UniquePtr<Base>;
        fn rrepl_base(j: usize, x: &mut UniquePtr<Base>);
        fn rdeep_base(x: UniquePtr<Base>, d: i32, mode: i32) -> Result<UniquePtr<Base>>;
        fn rhput_base(self: &RHolder, j: usize, x: UniquePtr<Base>, mode: i32) -> Result<()>;
        fn rhtake_base(self: &mut RHolder, j: usize, mode: i32) -> Result<UniquePtr<Base>>;
        fn rput_shared(j: usize, x: SharedPtr<CObj>);
        fn rtake_shared(j: usize) -> SharedPtr<CObj>;
        fn rtry_put_shared(j: usize, x: SharedPtr<CObj>, mode: i32) -> Result<()>;
        fn rtry_take_shared(j: usize, mode: i32) -> Result<SharedPtr<CObj>>;
        fn rtwo_shared(x: SharedPtr<CObj>, y: SharedPtr<CObj>, mode: i32) -> Result<SharedPtr<CObj>>;
        fn rthree_shared(a: u8, x: SharedPtr<CObj>, b: String, y: SharedPtr<CObj>, c: &str) -> SharedPtr<CObj>;
        fn rrepl_shared(j: usize, x: &mut SharedPtr<CObj>);
        fn rdeep_shared(x: SharedPtr<CObj>, d: i32, mode: i32) -> Result<SharedPtr<CObj>>;
        fn rhput_shared(self: &RHolder, j: usize, x: SharedPtr<CObj>, mode: i32) -> Result<()>;
        fn rhtake_shared(self: &mut RHolder, j: usize, mode: i32) -> Result<SharedPtr<CObj>>;
        fn rput_ustring(j: usize, x: UniquePtr<CxxString>);
        fn rtake_ustring(j: usize) -> UniquePtr<CxxString>;
        fn rtry_put_ustring(j: usize, x: UniquePtr<CxxString>, mode: i32) -> Result<()>;
        fn rtry_take_ustring(j: usize, mode: i32) -> Result<UniquePtr<CxxString>>;
        fn rtwo_ustring(x: UniquePtr<CxxString>, y: UniquePtr<CxxString>, mode: i32) -> Result<UniquePtr<CxxString>>;
        fn rthree_ustring(a: u8, x: UniquePtr<CxxString>, b: String, y: UniquePtr<CxxString>, c: &str) -> UniquePtr<CxxString>;
        fn rrepl_ustring(j: usize, x: &mut UniquePtr<CxxString>);
        fn rdeep_ustring(x: UniquePtr<CxxString>, d: i32, mode: i32) -> Result<UniquePtr<CxxString>>;
        fn rhput_ustring(self: &RHolder, j: usize, x: UniquePtr<CxxString>, mode: i32) -> Result<()>;
        fn rhtake_ustring(self: &mut RHolder, j: usize, mode: i32) -> Result<UniquePtr<CxxString>>;
        fn rput_uvec(j: usize, x: UniquePtr<CxxVector<CObj>>);
        fn rtake_uvec(j: usize) -> UniquePtr<CxxVector<CObj>>;
        fn rtry_put_uvec(j: usize, x: UniquePtr<CxxVector<CObj>>, mode: i32) -> Result<()>;
        fn rtry_take_uvec(j: usize, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>>;
        fn rtwo_uvec(x: UniquePtr<CxxVector<CObj>>, y: UniquePtr<CxxVector<CObj>>, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>>;
        fn rthree_uvec(a: u8, x: UniquePtr<CxxVector<CObj>>, b: String, y: UniquePtr<CxxVector<CObj>>, c: &str) -> UniquePtr<CxxVector<CObj>>;
        fn rrepl_uvec(j: usize, x: &mut UniquePtr<CxxVector<CObj>>);
        fn rdeep_uvec(x: UniquePtr<CxxVector<CObj>>, d: i32, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>>;
        fn rhput_uvec(self: &RHolder, j: usize, x: UniquePtr<CxxVector<CObj>>, mode: i32) -> Result<()>;
        fn rhtake_uvec(self: &mut RHolder, j: usize, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>>;
        fn rput_sh(j: usize, x: Sh);
        fn rtake_sh(j: usize) -> Sh;
        fn rtry_put_sh(j: usize, x: Sh, mode: i32) -> Result<()>;
        fn rtry_take_sh(j: usize, mode: i32) -> Result<Sh>;
        fn rtwo_sh(x: Sh, y: Sh, mode: i32) -> Result<Sh>;
        fn rthree_sh(a: u8, x: Sh, b: String, y: Sh, c: &str) -> Sh;
        fn rrepl_sh(j: usize, x: &mut Sh);
        fn rdeep_sh(x: Sh, d: i32, mode: i32) -> Result<Sh>;
        fn rhput_sh(self: &RHolder, j: usize, x: Sh, mode: i32) -> Result<()>;
        fn rhtake_sh(self: &mut RHolder, j: usize, mode: i32) -> Result<Sh>;
        fn rput_vecsh(j: usize, x: Vec<Sh>);
        fn rtake_vecsh(j: usize) -> Vec<Sh>;
        fn rtry_put_vecsh(j: usize, x: Vec<Sh>, mode: i32) -> Result<()>;
        fn rtry_take_vecsh(j: usize, mode: i32) -> Result<Vec<Sh>>;
        fn rtwo_vecsh(x: Vec<Sh>, y: Vec<Sh>, mode: i32) -> Result<Vec<Sh>>;
        fn rthree_vecsh(a: u8, x: Vec<Sh>, b: String, y: Vec<Sh>, c: &str) -> Vec<Sh>;
        fn rrepl_vecsh(j: usize, x: &mut Vec<Sh>);
        fn rdeep_vecsh(x: Vec<Sh>, d: i32, mode: i32) -> Result<Vec<Sh>>;
        fn rhput_vecsh(self: &RHolder, j: usize, x: Vec<Sh>, mode: i32) -> Result<()>;
        fn rhtake_vecsh(self: &mut RHolder, j: usize, mode: i32) -> Result<Vec<Sh>>;
        fn rput_boxsh(j: usize, x: Box<Sh>);
        fn rtake_boxsh(j: usize) -> Box<Sh>;
        fn rtry_put_boxsh(j: usize, x: Box<Sh>, mode: i32) -> Result<()>;
        fn rtry_take_boxsh(j: usize, mode: i32) -> Result<Box<Sh>>;
        fn rtwo_boxsh(x: Box<Sh>, y: Box<Sh>, mode: i32) -> Result<Box<Sh>>;
        fn rthree_boxsh(a: u8, x: Box<Sh>, b: String, y: Box<Sh>, c: &str) -> Box<Sh>;
        fn rrepl_boxsh(j: usize, x: &mut Box<Sh>);
        fn rdeep_boxsh(x: Box<Sh>, d: i32, mode: i32) -> Result<Box<Sh>>;
        fn rhput_boxsh(self: &RHolder, j: usize, x: Box<Sh>, mode: i32) -> Result<()>;
        fn rhtake_boxsh(self: &mut RHolder, j: usize, mode: i32) -> Result<Box<Sh>>;
        fn rput_uniquesh(j: usize, x: UniquePtr<Sh>);
        fn rtake_uniquesh(j: usize) -> UniquePtr<Sh>;
        fn rtry_put_uniquesh(j: usize, x: UniquePtr<Sh>, mode: i32) -> Result<()>;
        fn rtry_take_uniquesh(j: usize, mode: i32) -> Result<UniquePtr<Sh>>;
        fn rtwo_uniquesh(x: UniquePtr<Sh>, y: UniquePtr<Sh>, mode: i32) -> Result<UniquePtr<Sh>>;
        fn rthree_uniquesh(a: u8, x: UniquePtr<Sh>, b: String, y: UniquePtr<Sh>, c: &str) -> UniquePtr<Sh>;
        fn rrepl_uniquesh(j: usize, x: &mut UniquePtr<Sh>);
        fn rdeep_uniquesh(x: UniquePtr<Sh>, d: i32, mode: i32) -> Result<UniquePtr<Sh>>;
        fn rhput_uniquesh(self: &RHolder, j: usize, x: UniquePtr<Sh>, mode: i32) -> Result<()>;
        fn rhtake_uniquesh(self: &mut RHolder, j: usize, mode: i32) -> Result<UniquePtr<Sh>>;
        fn rput_sharedsh(j: usize, x: SharedPtr<Sh>);
        fn rtake_sharedsh(j: usize) -> SharedPtr<Sh>;
        fn rtry_put_sharedsh(j: usize, x: SharedPtr<Sh>, mode: i32) -> Result<()>;
        fn rtry_take_sharedsh(j: usize, mode: i32) -> Result<SharedPtr<Sh>>;
        fn rtwo_sharedsh(x: SharedPtr<Sh>, y: SharedPtr<Sh>, mode: i32) -> Result<SharedPtr<Sh>>;
        fn rthree_sharedsh(a: u8, x: SharedPtr<Sh>, b: String, y: SharedPtr<Sh>, c: &str) -> SharedPtr<Sh>;
        fn rrepl_sharedsh(j: usize, x: &mut SharedPtr<Sh>);
        fn rdeep_sharedsh(x: SharedPtr<Sh>, d: i32, mode: i32) -> Result<SharedPtr<Sh>>;
        fn rhput_sharedsh(self: &RHolder, j: usize, x: SharedPtr<Sh>, mode: i32) -> Result<()>;
        fn rhtake_sharedsh(self: &mut RHolder, j: usize, mode: i32) -> Result<SharedPtr<Sh>>;
        fn rput_arrbox(j: usize, x: [Box<RObj>; 2]);
        fn rtake_arrbox(j: usize) -> [Box<RObj>; 2];
        fn rtry_put_arrbox(j: usize, x: [Box<RObj>; 2], mode: i32) -> Result<()>;
        fn rtry_take_arrbox(j: usize, mode: i32) -> Result<[Box<RObj>; 2]>;
        fn rtwo_arrbox(x: [Box<RObj>; 2], y: [Box<RObj>; 2], mode: i32) -> Result<[Box<RObj>; 2]>;
        fn rthree_arrbox(a: u8, x: [Box<RObj>; 2], b: String, y: [Box<RObj>; 2], c: &str) -> [Box<RObj>; 2];
        fn rrepl_arrbox(j: usize, x: &mut [Box<RObj>; 2]);
        fn rdeep_arrbox(x: [Box<RObj>; 2], d: i32, mode: i32) -> Result<[Box<RObj>; 2]>;
        fn rhput_arrbox(self: &RHolder, j: usize, x: [Box<RObj>; 2], mode: i32) -> Result<()>;
        fn rhtake_arrbox(self: &mut RHolder, j: usize, mode: i32) -> Result<[Box<RObj>; 2]>;
        fn rput_arrsh(j: usize, x: [Sh; 2]);
        fn rtake_arrsh(j: usize) -> [Sh; 2];
        fn rtry_put_arrsh(j: usize, x: [Sh; 2], mode: i32) -> Result<()>;
        fn rtry_take_arrsh(j: usize, mode: i32) -> Result<[Sh; 2]>;
        fn rtwo_arrsh(x: [Sh; 2], y: [Sh; 2], mode: i32) -> Result<[Sh; 2]>;
        fn rthree_arrsh(a: u8, x: [Sh; 2], b: String, y: [Sh; 2], c: &str) -> [Sh; 2];
        fn rrepl_arrsh(j: usize, x: &mut [Sh; 2]);
        fn rdeep_arrsh(x: [Sh; 2], d: i32, mode: i32) -> Result<[Sh; 2]>;
        fn rhput_arrsh(self: &RHolder, j: usize, x: [Sh; 2], mode: i32) -> Result<()>;
        fn rhtake_arrsh(self: &mut RHolder, j: usize, mode: i32) -> Result<[Sh; 2]>;
        fn rput_tracked(j: usize, x: Tracked);
        fn rtake_tracked(j: usize) -> Tracked;
        fn rtry_put_tracked(j: usize, x: Tracked, mode: i32) -> Result<()>;
        fn rtry_take_tracked(j: usize, mode: i32) -> Result<Tracked>;
        fn rtwo_tracked(x: Tracked, y: Tracked, mode: i32) -> Result<Tracked>;
        fn rthree_tracked(a: u8, x: Tracked, b: String, y: Tracked, c: &str) -> Tracked;
        fn rrepl_tracked(j: usize, x: &mut Tracked);
        fn rdeep_tracked(x: Tracked, d: i32, mode: i32) -> Result<Tracked>;
        fn rhput_tracked(self: &RHolder, j: usize, x: Tracked, mode: i32) -> Result<()>;
        fn rhtake_tracked(self: &mut RHolder, j: usize, mode: i32) -> Result<Tracked>;
        fn rput_vectr(j: usize, x: Vec<Tracked>);
        fn rtake_vectr(j: usize) -> Vec<Tracked>;
        fn rtry_put_vectr(j: usize, x: Vec<Tracked>, mode: i32) -> Result<()>;
        fn rtry_take_vectr(j: usize, mode: i32) -> Result<Vec<Tracked>>;
        fn rtwo_vectr(x: Vec<Tracked>, y: Vec<Tracked>, mode: i32) -> Result<Vec<Tracked>>;
        fn rthree_vectr(a: u8, x: Vec<Tracked>, b: String, y: Vec<Tracked>, c: &str) -> Vec<Tracked>;
        fn rrepl_vectr(j: usize, x: &mut Vec<Tracked>);
        fn rdeep_vectr(x: Vec<Tracked>, d: i32, mode: i32) -> Result<Vec<Tracked>>;
        fn rhput_vectr(self: &RHolder, j: usize, x: Vec<Tracked>, mode: i32) -> Result<()>;
        fn rhtake_vectr(self: &mut RHolder, j: usize, mode: i32) -> Result<Vec<Tracked>>;
        fn rput_boxtr(j: usize, x: Box<Tracked>);
        fn rtake_boxtr(j: usize) -> Box<Tracked>;
        fn rtry_put_boxtr(j: usize, x: Box<Tracked>, mode: i32) -> Result<()>;
        fn rtry_take_boxtr(j: usize, mode: i32) -> Result<Box<Tracked>>;
        fn rtwo_boxtr(x: Box<Tracked>, y: Box<Tracked>, mode: i32) -> Result<Box<Tracked>>;
        fn rthree_boxtr(a: u8, x: Box<Tracked>, b: String, y: Box<Tracked>, c: &str) -> Box<Tracked>;
        fn rrepl_boxtr(j: usize, x: &mut Box<Tracked>);
        fn rdeep_boxtr(x: Box<Tracked>, d: i32, mode: i32) -> Result<Box<Tracked>>;
        fn rhput_boxtr(self: &RHolder, j: usize, x: Box<Tracked>, mode: i32) -> Result<()>;
        fn rhtake_boxtr(self: &mut RHolder, j: usize, mode: i32) -> Result<Box<Tracked>>;
        fn rput_vecstr(j: usize, x: Vec<String>);
        fn rtake_vecstr(j: usize) -> Vec<String>;
        fn rtry_put_vecstr(j: usize, x: Vec<String>, mode: i32) -> Result<()>;
        fn rtry_take_vecstr(j: usize, mode: i32) -> Result<Vec<String>>;
        fn rtwo_vecstr(x: Vec<String>, y: Vec<String>, mode: i32) -> Result<Vec<String>>;
        fn rthree_vecstr(a: u8, x: Vec<String>, b: String, y: Vec<String>, c: &str) -> Vec<String>;
        fn rrepl_vecstr(j: usize, x: &mut Vec<String>);
        fn rdeep_vecstr(x: Vec<String>, d: i32, mode: i32) -> Result<Vec<String>>;
        fn rhput_vecstr(self: &RHolder, j: usize, x: Vec<String>, mode: i32) -> Result<()>;
        fn rhtake_vecstr(self: &mut RHolder, j: usize, mode: i32) -> Result<Vec<String>>;
        fn rput_one(j: usize, x: One);
        fn rtake_one(j: usize) -> One;
        fn rtry_put_one(j: usize, x: One, mode: i32) -> Result<()>;
        fn rtry_take_one(j: usize, mode: i32) -> Result<One>;
        fn rtwo_one(x: One, y: One, mode: i32) -> Result<One>;
        fn rthree_one(a: u8, x: One, b: String, y: One, c: &str) -> One;
        fn rrepl_one(j: usize, x: &mut One);
        fn rdeep_one(x: One, d: i32, mode: i32) -> Result<One>;
        fn rhput_one(self: &RHolder, j: usize, x: One, mode: i32) -> Result<()>;
        fn rhtake_one(self: &mut RHolder, j: usize, mode: i32) -> Result<One>;
        fn rput_onet(j: usize, x: OneT);
        fn rtake_onet(j: usize) -> OneT;
        fn rtry_put_onet(j: usize, x: OneT, mode: i32) -> Result<()>;
        fn rtry_take_onet(j: usize, mode: i32) -> Result<OneT>;
        fn rtwo_onet(x: OneT, y: OneT, mode: i32) -> Result<OneT>;
        fn rthree_onet(a: u8, x: OneT, b: String, y: OneT, c: &str) -> OneT;
        fn rrepl_onet(j: usize, x: &mut OneT);
        fn rdeep_onet(x: OneT, d: i32, mode: i32) -> Result<OneT>;
        fn rhput_onet(self: &RHolder, j: usize, x: OneT, mode: i32) -> Result<()>;
        fn rhtake_onet(self: &mut RHolder, j: usize, mode: i32) -> Result<OneT>;
        fn rput_nest(j: usize, x: Nest);
        fn rtake_nest(j: usize) -> Nest;
        fn rtry_put_nest(j: usize, x: Nest, mode: i32) -> Result<()>;
        fn rtry_take_nest(j: usize, mode: i32) -> Result<Nest>;
        fn rtwo_nest(x: Nest, y: Nest, mode: i32) -> Result<Nest>;
        fn rthree_nest(a: u8, x: Nest, b: String, y: Nest, c: &str) -> Nest;
        fn rrepl_nest(j: usize, x: &mut Nest);
        fn rdeep_nest(x: Nest, d: i32, mode: i32) -> Result<Nest>;
        fn rhput_nest(self: &RHolder, j: usize, x: Nest, mode: i32) -> Result<()>;
        fn rhtake_nest(self: &mut RHolder, j: usize, mode: i32) -> Result<Nest>;
    }
    impl Box<Tracked> {}
    impl Vec<Tracked> {}
}
fn mkrobj(k: i32) -> Box<RObj> { Box::new(RObj::new(k)) }
fn mkvec(k: i32) -> Vec<RObj> { vec![RObj::new(k), RObj::new(k)] }
fn rval(x: &RObj) -> i32 { x.val }
#[derive(Clone, Copy, Debug)]
pub enum Op {
    RNew(usize, i32), RDrop(usize), CNew(usize, i32), CDrop(usize), Put(usize, usize), Take(usize, usize), TryPut(usize, usize, i32), TryTake(usize, usize, i32), HPut(usize, usize, i32), HTake(usize, usize, i32),
    Two(i32), Three, Cb(usize), Cb2, Repl(usize, usize), Deep(usize, i32, i32), CRPut(usize, usize), CRTake(usize, usize), CRIgnore(usize), CRTryPut(usize, usize, i32), CRTryTake(usize, usize, i32), CRTwo(i32), CRThree, CRRepl(usize, usize), CRDeep(usize, i32, i32),
    CRHPut(usize, usize, i32), CRHTake(usize, usize, i32),
}
#[derive(Default, Clone)]
pub struct M { r: [Option<i32>; 2], c: [Option<i32>; 2] }
fn enabled(o: Op, m: &M) -> bool {
    use Op::*;
    match o {
        RNew(..) | CNew(..) => true,
        RDrop(j) | Cb(j) | Deep(j, ..) | CRIgnore(j) => m.r[j].is_some(),
        CDrop(i) | CRDeep(i, ..) => m.c[i].is_some(),
        Put(_, j) | TryPut(_, j, _) | HPut(_, j, _) => m.r[j].is_some(),
        Take(i, _) | TryTake(i, ..) | HTake(i, ..) => m.c[i].is_some(),
        CRPut(i, _) | CRTryPut(i, ..) | CRHPut(i, ..) => m.c[i].is_some(),
        CRTake(_, j) | CRTryTake(_, j, _) | CRHTake(_, j, _) => m.r[j].is_some(),
        Two(_) | Three | Cb2 => m.r[0].is_some() && m.r[1].is_some(),
        CRTwo(_) | CRThree => m.c[0].is_some() && m.c[1].is_some(),
        Repl(i, j) | CRRepl(i, j) => m.c[i].is_some() && m.r[j].is_some(),
    }
}
/// Applies `o` to the model; the result is whether the call succeeds.
fn model(o: Op, m: &mut M) -> bool {
    use Op::*;
    match o {
        RNew(j, k) => m.r[j] = Some(k),
        RDrop(j) | CRIgnore(j) => m.r[j] = None,
        CNew(i, k) => m.c[i] = Some(k),
        CDrop(i) => m.c[i] = None,
        Put(i, j) => m.c[i] = m.r[j].take(),
        Take(i, j) => m.r[j] = m.c[i].take(),
        TryPut(i, j, mode) | HPut(i, j, mode) => { let x = m.r[j].take(); if mode != 1 { m.c[i] = x; } return mode == 0; }
        TryTake(i, j, mode) | HTake(i, j, mode) => { if mode != 1 { let x = m.c[i].take(); if mode == 0 { m.r[j] = x; } } return mode == 0; }
        Two(mode) => { let (x, y) = (m.r[0].take(), m.r[1].take()); match mode { 0 => m.r[0] = x, 3 => m.r[0] = y, _ => return false } }
        Three => { m.r[0] = None; }
        Cb(_) => {}
        Cb2 => { m.r[0] = m.r[1].take(); }
        Repl(i, j) | CRRepl(i, j) => { let x = m.c[i]; m.c[i] = m.r[j]; m.r[j] = x; }
        Deep(j, _, mode) => { if mode != 0 { m.r[j] = None; return false; } }
        CRPut(i, j) => m.r[j] = m.c[i].take(),
        CRTake(i, j) => m.c[i] = m.r[j].take(),
        CRTryPut(i, j, mode) | CRHPut(i, j, mode) => { let x = m.c[i].take(); if mode != 1 { m.r[j] = x; } return mode == 0; }
        CRTryTake(i, j, mode) | CRHTake(i, j, mode) => { if mode != 1 { let x = m.r[j].take(); if mode == 0 { m.c[i] = x; } } return mode == 0; }
        CRTwo(mode) => { let (x, y) = (m.c[0].take(), m.c[1].take()); match mode { 0 => m.c[0] = x, 3 => m.c[0] = y, _ => return false } }
        CRThree => { m.c[0] = None; }
        CRDeep(i, _, mode) => { if mode != 0 { m.c[i] = None; return false; } }
    }
    true
}
fn ops() -> Vec<Op> {
    use Op::*;
    let mut v = vec![];
    // slot 1 only takes part where two values meet
    v.extend([RNew(0, 1), RNew(0, 2), RNew(1, 3), RDrop(0), RDrop(1), CNew(0, 1), CNew(0, 2), CNew(1, 3), CDrop(0), CDrop(1)]);
    for (i, j) in [(0, 0), (0, 1), (1, 0)] {
        v.extend([Put(i, j), Take(i, j), CRPut(i, j), CRTake(i, j), Repl(i, j), CRRepl(i, j)]);
    }
    for mode in 0..3 {
        v.extend([TryPut(0, 0, mode), TryTake(0, 0, mode), HPut(0, 0, mode), HTake(0, 0, mode), CRTryPut(0, 0, mode), CRTryTake(0, 0, mode), CRHPut(0, 0, mode), CRHTake(0, 0, mode)]);
    }
    v.extend([Two(0), Two(1), Two(2), Two(3), Three, Cb(0), Cb2, CRTwo(0), CRTwo(1), CRTwo(3), CRThree, CRIgnore(0)]);
    for d in 1..4 {
        for mode in 0..2 {
            v.extend([Deep(0, d, mode), CRDeep(0, d, mode)]);
        }
    }
    v
}

fn mk_box(k: i32) -> Box<RObj> { Box::new(RObj::new(k)) }
fn val_box(x: &Box<RObj>) -> i32 { x.val }
pub mod k_box {
    use super::*;
    pub static mut R: [Option<Box<RObj>>; 2] = [const { None }; 2];
    fn f1(x: Box<RObj>) -> Box<RObj> { x }
    fn f2(x: Box<RObj>, y: Box<RObj>) -> Box<RObj> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_box(0); ffi::cdrop_box(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_box(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_box(i, k); true }
                CDrop(i) => { ffi::cdrop_box(i); true }
                Put(i, j) => { ffi::put_box(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_box(i)); true }
                TryPut(i, j, mode) => ffi::try_put_box(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_box(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_box(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_box(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_box(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_box(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_box(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_box(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_box(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_box(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_box(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_box(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_box(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_box(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_box(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_box(mode),
                CRThree => { ffi::c_rthree_box(); true }
                CRRepl(i, j) => { ffi::c_rrepl_box(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_box(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_box(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_box(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_box(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_box(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 1;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_box(j: usize) -> &'static mut Option<Box<RObj>> { unsafe { &mut (*(&raw mut k_box::R))[j] } }
fn rput_box(j: usize, x: Box<RObj>) { *slot_box(j) = Some(x); }
fn rtake_box(j: usize) -> Box<RObj> { slot_box(j).take().unwrap() }
fn rtry_put_box(j: usize, x: Box<RObj>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_box(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_box(j: usize, mode: i32) -> Result<Box<RObj>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_box(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_box(x: Box<RObj>, y: Box<RObj>, mode: i32) -> Result<Box<RObj>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_box(a: u8, x: Box<RObj>, b: String, y: Box<RObj>, c: &str) -> Box<RObj> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_box(j: usize, x: &mut Box<RObj>) { std::mem::swap(slot_box(j).as_mut().unwrap(), x); }
fn rdeep_box(x: Box<RObj>, d: i32, mode: i32) -> Result<Box<RObj>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_box(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_box(&self, j: usize, x: Box<RObj>, mode: i32) -> Result<(), E> { rtry_put_box(j, x, mode) }
    fn rhtake_box(&mut self, j: usize, mode: i32) -> Result<Box<RObj>, E> { self.0 += 1; rtry_take_box(j, mode) }
}

fn mk_vec(k: i32) -> Vec<RObj> { vec![RObj::new(k), RObj::new(k)] }
fn val_vec(x: &Vec<RObj>) -> i32 { if x.len() == 2 { x[0].val } else { -2 } }
pub mod k_vec {
    use super::*;
    pub static mut R: [Option<Vec<RObj>>; 2] = [const { None }; 2];
    fn f1(x: Vec<RObj>) -> Vec<RObj> { x }
    fn f2(x: Vec<RObj>, y: Vec<RObj>) -> Vec<RObj> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_vec(0); ffi::cdrop_vec(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_vec(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_vec(i, k); true }
                CDrop(i) => { ffi::cdrop_vec(i); true }
                Put(i, j) => { ffi::put_vec(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_vec(i)); true }
                TryPut(i, j, mode) => ffi::try_put_vec(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_vec(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_vec(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_vec(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_vec(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_vec(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_vec(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_vec(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_vec(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_vec(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_vec(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_vec(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_vec(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_vec(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_vec(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_vec(mode),
                CRThree => { ffi::c_rthree_vec(); true }
                CRRepl(i, j) => { ffi::c_rrepl_vec(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_vec(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_vec(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_vec(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_vec(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_vec(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 2;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_vec(j: usize) -> &'static mut Option<Vec<RObj>> { unsafe { &mut (*(&raw mut k_vec::R))[j] } }
fn rput_vec(j: usize, x: Vec<RObj>) { *slot_vec(j) = Some(x); }
fn rtake_vec(j: usize) -> Vec<RObj> { slot_vec(j).take().unwrap() }
fn rtry_put_vec(j: usize, x: Vec<RObj>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_vec(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_vec(j: usize, mode: i32) -> Result<Vec<RObj>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_vec(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_vec(x: Vec<RObj>, y: Vec<RObj>, mode: i32) -> Result<Vec<RObj>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_vec(a: u8, x: Vec<RObj>, b: String, y: Vec<RObj>, c: &str) -> Vec<RObj> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_vec(j: usize, x: &mut Vec<RObj>) { std::mem::swap(slot_vec(j).as_mut().unwrap(), x); }
fn rdeep_vec(x: Vec<RObj>, d: i32, mode: i32) -> Result<Vec<RObj>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_vec(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_vec(&self, j: usize, x: Vec<RObj>, mode: i32) -> Result<(), E> { rtry_put_vec(j, x, mode) }
    fn rhtake_vec(&mut self, j: usize, mode: i32) -> Result<Vec<RObj>, E> { self.0 += 1; rtry_take_vec(j, mode) }
}

fn mk_string(k: i32) -> String { text(k) }
fn val_string(x: &String) -> i32 { TEXTS.iter().position(|t| *t == x.as_str()).map_or(-2, |i| i as i32) }
pub mod k_string {
    use super::*;
    pub static mut R: [Option<String>; 2] = [const { None }; 2];
    fn f1(x: String) -> String { x }
    fn f2(x: String, y: String) -> String { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_string(0); ffi::cdrop_string(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_string(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_string(i, k); true }
                CDrop(i) => { ffi::cdrop_string(i); true }
                Put(i, j) => { ffi::put_string(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_string(i)); true }
                TryPut(i, j, mode) => ffi::try_put_string(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_string(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_string(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_string(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_string(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_string(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_string(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_string(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_string(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_string(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_string(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_string(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_string(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_string(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_string(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_string(mode),
                CRThree => { ffi::c_rthree_string(); true }
                CRRepl(i, j) => { ffi::c_rrepl_string(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_string(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_string(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_string(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_string(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_string(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 0;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_string(j: usize) -> &'static mut Option<String> { unsafe { &mut (*(&raw mut k_string::R))[j] } }
fn rput_string(j: usize, x: String) { *slot_string(j) = Some(x); }
fn rtake_string(j: usize) -> String { slot_string(j).take().unwrap() }
fn rtry_put_string(j: usize, x: String, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_string(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_string(j: usize, mode: i32) -> Result<String, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_string(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_string(x: String, y: String, mode: i32) -> Result<String, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_string(a: u8, x: String, b: String, y: String, c: &str) -> String { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_string(j: usize, x: &mut String) { std::mem::swap(slot_string(j).as_mut().unwrap(), x); }
fn rdeep_string(x: String, d: i32, mode: i32) -> Result<String, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_string(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_string(&self, j: usize, x: String, mode: i32) -> Result<(), E> { rtry_put_string(j, x, mode) }
    fn rhtake_string(&mut self, j: usize, mode: i32) -> Result<String, E> { self.0 += 1; rtry_take_string(j, mode) }
}

fn mk_unique(k: i32) -> UniquePtr<CObj> { ffi::mkcobj(k) }
fn val_unique(x: &UniquePtr<CObj>) -> i32 { x.val() }
pub mod k_unique {
    use super::*;
    pub static mut R: [Option<UniquePtr<CObj>>; 2] = [const { None }; 2];
    fn f1(x: UniquePtr<CObj>) -> UniquePtr<CObj> { x }
    fn f2(x: UniquePtr<CObj>, y: UniquePtr<CObj>) -> UniquePtr<CObj> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_unique(0); ffi::cdrop_unique(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_unique(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_unique(i, k); true }
                CDrop(i) => { ffi::cdrop_unique(i); true }
                Put(i, j) => { ffi::put_unique(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_unique(i)); true }
                TryPut(i, j, mode) => ffi::try_put_unique(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_unique(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_unique(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_unique(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_unique(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_unique(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_unique(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_unique(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_unique(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_unique(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_unique(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_unique(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_unique(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_unique(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_unique(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_unique(mode),
                CRThree => { ffi::c_rthree_unique(); true }
                CRRepl(i, j) => { ffi::c_rrepl_unique(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_unique(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_unique(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_unique(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_unique(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_unique(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 1;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_unique(j: usize) -> &'static mut Option<UniquePtr<CObj>> { unsafe { &mut (*(&raw mut k_unique::R))[j] } }
fn rput_unique(j: usize, x: UniquePtr<CObj>) { *slot_unique(j) = Some(x); }
fn rtake_unique(j: usize) -> UniquePtr<CObj> { slot_unique(j).take().unwrap() }
fn rtry_put_unique(j: usize, x: UniquePtr<CObj>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_unique(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_unique(j: usize, mode: i32) -> Result<UniquePtr<CObj>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_unique(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_unique(x: UniquePtr<CObj>, y: UniquePtr<CObj>, mode: i32) -> Result<UniquePtr<CObj>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_unique(a: u8, x: UniquePtr<CObj>, b: String, y: UniquePtr<CObj>, c: &str) -> UniquePtr<CObj> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_unique(j: usize, x: &mut UniquePtr<CObj>) { std::mem::swap(slot_unique(j).as_mut().unwrap(), x); }
fn rdeep_unique(x: UniquePtr<CObj>, d: i32, mode: i32) -> Result<UniquePtr<CObj>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_unique(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_unique(&self, j: usize, x: UniquePtr<CObj>, mode: i32) -> Result<(), E> { rtry_put_unique(j, x, mode) }
    fn rhtake_unique(&mut self, j: usize, mode: i32) -> Result<UniquePtr<CObj>, E> { self.0 += 1; rtry_take_unique(j, mode) }
}

fn mk_base(k: i32) -> UniquePtr<Base> { ffi::mkbase(k) }
fn val_base(x: &UniquePtr<Base>) -> i32 { x.bval() }
pub mod k_base {
    use super::*;
    pub static mut R: [Option<UniquePtr<Base>>; 2] = [const { None }; 2];
    fn f1(x: UniquePtr<Base>) -> UniquePtr<Base> { x }
    fn f2(x: UniquePtr<Base>, y: UniquePtr<Base>) -> UniquePtr<Base> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_base(0); ffi::cdrop_base(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_base(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_base(i, k); true }
                CDrop(i) => { ffi::cdrop_base(i); true }
                Put(i, j) => { ffi::put_base(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_base(i)); true }
                TryPut(i, j, mode) => ffi::try_put_base(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_base(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_base(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_base(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_base(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_base(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_base(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_base(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_base(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_base(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_base(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_base(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_base(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_base(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_base(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_base(mode),
                CRThree => { ffi::c_rthree_base(); true }
                CRRepl(i, j) => { ffi::c_rrepl_base(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_base(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_base(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_base(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_base(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_base(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 1;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_base(j: usize) -> &'static mut Option<UniquePtr<Base>> { unsafe { &mut (*(&raw mut k_base::R))[j] } }
fn rput_base(j: usize, x: UniquePtr<Base>) { *slot_base(j) = Some(x); }
fn rtake_base(j: usize) -> UniquePtr<Base> { slot_base(j).take().unwrap() }
fn rtry_put_base(j: usize, x: UniquePtr<Base>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_base(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_base(j: usize, mode: i32) -> Result<UniquePtr<Base>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_base(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_base(x: UniquePtr<Base>, y: UniquePtr<Base>, mode: i32) -> Result<UniquePtr<Base>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_base(a: u8, x: UniquePtr<Base>, b: String, y: UniquePtr<Base>, c: &str) -> UniquePtr<Base> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_base(j: usize, x: &mut UniquePtr<Base>) { std::mem::swap(slot_base(j).as_mut().unwrap(), x); }
fn rdeep_base(x: UniquePtr<Base>, d: i32, mode: i32) -> Result<UniquePtr<Base>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_base(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_base(&self, j: usize, x: UniquePtr<Base>, mode: i32) -> Result<(), E> { rtry_put_base(j, x, mode) }
    fn rhtake_base(&mut self, j: usize, mode: i32) -> Result<UniquePtr<Base>, E> { self.0 += 1; rtry_take_base(j, mode) }
}

fn mk_shared(k: i32) -> SharedPtr<CObj> { ffi::mkshared(k) }
fn val_shared(x: &SharedPtr<CObj>) -> i32 { x.val() }
pub mod k_shared {
    use super::*;
    pub static mut R: [Option<SharedPtr<CObj>>; 2] = [const { None }; 2];
    fn f1(x: SharedPtr<CObj>) -> SharedPtr<CObj> { x }
    fn f2(x: SharedPtr<CObj>, y: SharedPtr<CObj>) -> SharedPtr<CObj> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_shared(0); ffi::cdrop_shared(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_shared(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_shared(i, k); true }
                CDrop(i) => { ffi::cdrop_shared(i); true }
                Put(i, j) => { ffi::put_shared(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_shared(i)); true }
                TryPut(i, j, mode) => ffi::try_put_shared(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_shared(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_shared(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_shared(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_shared(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_shared(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_shared(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_shared(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_shared(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_shared(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_shared(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_shared(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_shared(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_shared(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_shared(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_shared(mode),
                CRThree => { ffi::c_rthree_shared(); true }
                CRRepl(i, j) => { ffi::c_rrepl_shared(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_shared(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_shared(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_shared(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_shared(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_shared(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 1;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_shared(j: usize) -> &'static mut Option<SharedPtr<CObj>> { unsafe { &mut (*(&raw mut k_shared::R))[j] } }
fn rput_shared(j: usize, x: SharedPtr<CObj>) { *slot_shared(j) = Some(x); }
fn rtake_shared(j: usize) -> SharedPtr<CObj> { slot_shared(j).take().unwrap() }
fn rtry_put_shared(j: usize, x: SharedPtr<CObj>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_shared(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_shared(j: usize, mode: i32) -> Result<SharedPtr<CObj>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_shared(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_shared(x: SharedPtr<CObj>, y: SharedPtr<CObj>, mode: i32) -> Result<SharedPtr<CObj>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_shared(a: u8, x: SharedPtr<CObj>, b: String, y: SharedPtr<CObj>, c: &str) -> SharedPtr<CObj> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_shared(j: usize, x: &mut SharedPtr<CObj>) { std::mem::swap(slot_shared(j).as_mut().unwrap(), x); }
fn rdeep_shared(x: SharedPtr<CObj>, d: i32, mode: i32) -> Result<SharedPtr<CObj>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_shared(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_shared(&self, j: usize, x: SharedPtr<CObj>, mode: i32) -> Result<(), E> { rtry_put_shared(j, x, mode) }
    fn rhtake_shared(&mut self, j: usize, mode: i32) -> Result<SharedPtr<CObj>, E> { self.0 += 1; rtry_take_shared(j, mode) }
}

fn mk_ustring(k: i32) -> UniquePtr<CxxString> { { cxx::let_cxx_string!(t = text(k)); ffi::mkustring(&t) } }
fn val_ustring(x: &UniquePtr<CxxString>) -> i32 { TEXTS.iter().position(|t| *t == x.to_str().unwrap()).map_or(-2, |i| i as i32) }
pub mod k_ustring {
    use super::*;
    pub static mut R: [Option<UniquePtr<CxxString>>; 2] = [const { None }; 2];
    fn f1(x: UniquePtr<CxxString>) -> UniquePtr<CxxString> { x }
    fn f2(x: UniquePtr<CxxString>, y: UniquePtr<CxxString>) -> UniquePtr<CxxString> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_ustring(0); ffi::cdrop_ustring(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_ustring(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_ustring(i, k); true }
                CDrop(i) => { ffi::cdrop_ustring(i); true }
                Put(i, j) => { ffi::put_ustring(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_ustring(i)); true }
                TryPut(i, j, mode) => ffi::try_put_ustring(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_ustring(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_ustring(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_ustring(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_ustring(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_ustring(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_ustring(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_ustring(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_ustring(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_ustring(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_ustring(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_ustring(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_ustring(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_ustring(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_ustring(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_ustring(mode),
                CRThree => { ffi::c_rthree_ustring(); true }
                CRRepl(i, j) => { ffi::c_rrepl_ustring(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_ustring(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_ustring(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_ustring(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_ustring(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_ustring(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 0;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_ustring(j: usize) -> &'static mut Option<UniquePtr<CxxString>> { unsafe { &mut (*(&raw mut k_ustring::R))[j] } }
fn rput_ustring(j: usize, x: UniquePtr<CxxString>) { *slot_ustring(j) = Some(x); }
fn rtake_ustring(j: usize) -> UniquePtr<CxxString> { slot_ustring(j).take().unwrap() }
fn rtry_put_ustring(j: usize, x: UniquePtr<CxxString>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_ustring(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_ustring(j: usize, mode: i32) -> Result<UniquePtr<CxxString>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_ustring(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_ustring(x: UniquePtr<CxxString>, y: UniquePtr<CxxString>, mode: i32) -> Result<UniquePtr<CxxString>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_ustring(a: u8, x: UniquePtr<CxxString>, b: String, y: UniquePtr<CxxString>, c: &str) -> UniquePtr<CxxString> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_ustring(j: usize, x: &mut UniquePtr<CxxString>) { std::mem::swap(slot_ustring(j).as_mut().unwrap(), x); }
fn rdeep_ustring(x: UniquePtr<CxxString>, d: i32, mode: i32) -> Result<UniquePtr<CxxString>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_ustring(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_ustring(&self, j: usize, x: UniquePtr<CxxString>, mode: i32) -> Result<(), E> { rtry_put_ustring(j, x, mode) }
    fn rhtake_ustring(&mut self, j: usize, mode: i32) -> Result<UniquePtr<CxxString>, E> { self.0 += 1; rtry_take_ustring(j, mode) }
}

fn mk_uvec(k: i32) -> UniquePtr<CxxVector<CObj>> { ffi::mkuvec(k) }
fn val_uvec(x: &UniquePtr<CxxVector<CObj>>) -> i32 { if x.len() == 2 { x.get(1).unwrap().val() } else { -2 } }
pub mod k_uvec {
    use super::*;
    pub static mut R: [Option<UniquePtr<CxxVector<CObj>>>; 2] = [const { None }; 2];
    fn f1(x: UniquePtr<CxxVector<CObj>>) -> UniquePtr<CxxVector<CObj>> { x }
    fn f2(x: UniquePtr<CxxVector<CObj>>, y: UniquePtr<CxxVector<CObj>>) -> UniquePtr<CxxVector<CObj>> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_uvec(0); ffi::cdrop_uvec(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_uvec(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_uvec(i, k); true }
                CDrop(i) => { ffi::cdrop_uvec(i); true }
                Put(i, j) => { ffi::put_uvec(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_uvec(i)); true }
                TryPut(i, j, mode) => ffi::try_put_uvec(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_uvec(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_uvec(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_uvec(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_uvec(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_uvec(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_uvec(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_uvec(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_uvec(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_uvec(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_uvec(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_uvec(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_uvec(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_uvec(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_uvec(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_uvec(mode),
                CRThree => { ffi::c_rthree_uvec(); true }
                CRRepl(i, j) => { ffi::c_rrepl_uvec(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_uvec(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_uvec(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_uvec(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_uvec(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_uvec(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 2;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_uvec(j: usize) -> &'static mut Option<UniquePtr<CxxVector<CObj>>> { unsafe { &mut (*(&raw mut k_uvec::R))[j] } }
fn rput_uvec(j: usize, x: UniquePtr<CxxVector<CObj>>) { *slot_uvec(j) = Some(x); }
fn rtake_uvec(j: usize) -> UniquePtr<CxxVector<CObj>> { slot_uvec(j).take().unwrap() }
fn rtry_put_uvec(j: usize, x: UniquePtr<CxxVector<CObj>>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_uvec(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_uvec(j: usize, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_uvec(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_uvec(x: UniquePtr<CxxVector<CObj>>, y: UniquePtr<CxxVector<CObj>>, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_uvec(a: u8, x: UniquePtr<CxxVector<CObj>>, b: String, y: UniquePtr<CxxVector<CObj>>, c: &str) -> UniquePtr<CxxVector<CObj>> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_uvec(j: usize, x: &mut UniquePtr<CxxVector<CObj>>) { std::mem::swap(slot_uvec(j).as_mut().unwrap(), x); }
fn rdeep_uvec(x: UniquePtr<CxxVector<CObj>>, d: i32, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_uvec(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_uvec(&self, j: usize, x: UniquePtr<CxxVector<CObj>>, mode: i32) -> Result<(), E> { rtry_put_uvec(j, x, mode) }
    fn rhtake_uvec(&mut self, j: usize, mode: i32) -> Result<UniquePtr<CxxVector<CObj>>, E> { self.0 += 1; rtry_take_uvec(j, mode) }
}

fn mk_sh(k: i32) -> Sh { Sh { b: Box::new(RObj::new(k)), u: ffi::mkcobj(k), s: text(k), v: vec![k as u8; 3], p: ffi::mkshared(k) } }
fn val_sh(x: &Sh) -> i32 { if x.u.val() == x.b.val && x.p.val() == x.b.val && x.s == text(x.b.val) && x.v == [x.b.val as u8; 3] { x.b.val } else { -2 } }
pub mod k_sh {
    use super::*;
    pub static mut R: [Option<Sh>; 2] = [const { None }; 2];
    fn f1(x: Sh) -> Sh { x }
    fn f2(x: Sh, y: Sh) -> Sh { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_sh(0); ffi::cdrop_sh(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_sh(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_sh(i, k); true }
                CDrop(i) => { ffi::cdrop_sh(i); true }
                Put(i, j) => { ffi::put_sh(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_sh(i)); true }
                TryPut(i, j, mode) => ffi::try_put_sh(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_sh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_sh(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_sh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_sh(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_sh(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_sh(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_sh(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_sh(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_sh(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_sh(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_sh(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_sh(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_sh(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_sh(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_sh(mode),
                CRThree => { ffi::c_rthree_sh(); true }
                CRRepl(i, j) => { ffi::c_rrepl_sh(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_sh(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_sh(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_sh(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_sh(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_sh(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 3;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_sh(j: usize) -> &'static mut Option<Sh> { unsafe { &mut (*(&raw mut k_sh::R))[j] } }
fn rput_sh(j: usize, x: Sh) { *slot_sh(j) = Some(x); }
fn rtake_sh(j: usize) -> Sh { slot_sh(j).take().unwrap() }
fn rtry_put_sh(j: usize, x: Sh, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_sh(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_sh(j: usize, mode: i32) -> Result<Sh, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_sh(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_sh(x: Sh, y: Sh, mode: i32) -> Result<Sh, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_sh(a: u8, x: Sh, b: String, y: Sh, c: &str) -> Sh { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_sh(j: usize, x: &mut Sh) { std::mem::swap(slot_sh(j).as_mut().unwrap(), x); }
fn rdeep_sh(x: Sh, d: i32, mode: i32) -> Result<Sh, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_sh(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_sh(&self, j: usize, x: Sh, mode: i32) -> Result<(), E> { rtry_put_sh(j, x, mode) }
    fn rhtake_sh(&mut self, j: usize, mode: i32) -> Result<Sh, E> { self.0 += 1; rtry_take_sh(j, mode) }
}

fn mk_vecsh(k: i32) -> Vec<Sh> { vec![mk_sh(k), mk_sh(k)] }
fn val_vecsh(x: &Vec<Sh>) -> i32 { if x.len() == 2 && val_sh(&x[0]) == val_sh(&x[1]) { val_sh(&x[0]) } else { -2 } }
pub mod k_vecsh {
    use super::*;
    pub static mut R: [Option<Vec<Sh>>; 2] = [const { None }; 2];
    fn f1(x: Vec<Sh>) -> Vec<Sh> { x }
    fn f2(x: Vec<Sh>, y: Vec<Sh>) -> Vec<Sh> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_vecsh(0); ffi::cdrop_vecsh(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_vecsh(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_vecsh(i, k); true }
                CDrop(i) => { ffi::cdrop_vecsh(i); true }
                Put(i, j) => { ffi::put_vecsh(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_vecsh(i)); true }
                TryPut(i, j, mode) => ffi::try_put_vecsh(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_vecsh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_vecsh(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_vecsh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_vecsh(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_vecsh(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_vecsh(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_vecsh(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_vecsh(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_vecsh(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_vecsh(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_vecsh(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_vecsh(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_vecsh(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_vecsh(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_vecsh(mode),
                CRThree => { ffi::c_rthree_vecsh(); true }
                CRRepl(i, j) => { ffi::c_rrepl_vecsh(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_vecsh(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_vecsh(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_vecsh(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_vecsh(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_vecsh(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 6;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_vecsh(j: usize) -> &'static mut Option<Vec<Sh>> { unsafe { &mut (*(&raw mut k_vecsh::R))[j] } }
fn rput_vecsh(j: usize, x: Vec<Sh>) { *slot_vecsh(j) = Some(x); }
fn rtake_vecsh(j: usize) -> Vec<Sh> { slot_vecsh(j).take().unwrap() }
fn rtry_put_vecsh(j: usize, x: Vec<Sh>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_vecsh(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_vecsh(j: usize, mode: i32) -> Result<Vec<Sh>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_vecsh(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_vecsh(x: Vec<Sh>, y: Vec<Sh>, mode: i32) -> Result<Vec<Sh>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_vecsh(a: u8, x: Vec<Sh>, b: String, y: Vec<Sh>, c: &str) -> Vec<Sh> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_vecsh(j: usize, x: &mut Vec<Sh>) { std::mem::swap(slot_vecsh(j).as_mut().unwrap(), x); }
fn rdeep_vecsh(x: Vec<Sh>, d: i32, mode: i32) -> Result<Vec<Sh>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_vecsh(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_vecsh(&self, j: usize, x: Vec<Sh>, mode: i32) -> Result<(), E> { rtry_put_vecsh(j, x, mode) }
    fn rhtake_vecsh(&mut self, j: usize, mode: i32) -> Result<Vec<Sh>, E> { self.0 += 1; rtry_take_vecsh(j, mode) }
}

fn mk_boxsh(k: i32) -> Box<Sh> { Box::new(mk_sh(k)) }
fn val_boxsh(x: &Box<Sh>) -> i32 { val_sh(x) }
pub mod k_boxsh {
    use super::*;
    pub static mut R: [Option<Box<Sh>>; 2] = [const { None }; 2];
    fn f1(x: Box<Sh>) -> Box<Sh> { x }
    fn f2(x: Box<Sh>, y: Box<Sh>) -> Box<Sh> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_boxsh(0); ffi::cdrop_boxsh(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_boxsh(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_boxsh(i, k); true }
                CDrop(i) => { ffi::cdrop_boxsh(i); true }
                Put(i, j) => { ffi::put_boxsh(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_boxsh(i)); true }
                TryPut(i, j, mode) => ffi::try_put_boxsh(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_boxsh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_boxsh(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_boxsh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_boxsh(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_boxsh(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_boxsh(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_boxsh(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_boxsh(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_boxsh(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_boxsh(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_boxsh(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_boxsh(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_boxsh(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_boxsh(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_boxsh(mode),
                CRThree => { ffi::c_rthree_boxsh(); true }
                CRRepl(i, j) => { ffi::c_rrepl_boxsh(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_boxsh(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_boxsh(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_boxsh(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_boxsh(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_boxsh(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 3;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_boxsh(j: usize) -> &'static mut Option<Box<Sh>> { unsafe { &mut (*(&raw mut k_boxsh::R))[j] } }
fn rput_boxsh(j: usize, x: Box<Sh>) { *slot_boxsh(j) = Some(x); }
fn rtake_boxsh(j: usize) -> Box<Sh> { slot_boxsh(j).take().unwrap() }
fn rtry_put_boxsh(j: usize, x: Box<Sh>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_boxsh(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_boxsh(j: usize, mode: i32) -> Result<Box<Sh>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_boxsh(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_boxsh(x: Box<Sh>, y: Box<Sh>, mode: i32) -> Result<Box<Sh>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_boxsh(a: u8, x: Box<Sh>, b: String, y: Box<Sh>, c: &str) -> Box<Sh> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_boxsh(j: usize, x: &mut Box<Sh>) { std::mem::swap(slot_boxsh(j).as_mut().unwrap(), x); }
fn rdeep_boxsh(x: Box<Sh>, d: i32, mode: i32) -> Result<Box<Sh>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_boxsh(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_boxsh(&self, j: usize, x: Box<Sh>, mode: i32) -> Result<(), E> { rtry_put_boxsh(j, x, mode) }
    fn rhtake_boxsh(&mut self, j: usize, mode: i32) -> Result<Box<Sh>, E> { self.0 += 1; rtry_take_boxsh(j, mode) }
}

fn mk_uniquesh(k: i32) -> UniquePtr<Sh> { UniquePtr::new(mk_sh(k)) }
fn val_uniquesh(x: &UniquePtr<Sh>) -> i32 { val_sh(x) }
pub mod k_uniquesh {
    use super::*;
    pub static mut R: [Option<UniquePtr<Sh>>; 2] = [const { None }; 2];
    fn f1(x: UniquePtr<Sh>) -> UniquePtr<Sh> { x }
    fn f2(x: UniquePtr<Sh>, y: UniquePtr<Sh>) -> UniquePtr<Sh> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_uniquesh(0); ffi::cdrop_uniquesh(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_uniquesh(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_uniquesh(i, k); true }
                CDrop(i) => { ffi::cdrop_uniquesh(i); true }
                Put(i, j) => { ffi::put_uniquesh(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_uniquesh(i)); true }
                TryPut(i, j, mode) => ffi::try_put_uniquesh(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_uniquesh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_uniquesh(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_uniquesh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_uniquesh(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_uniquesh(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_uniquesh(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_uniquesh(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_uniquesh(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_uniquesh(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_uniquesh(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_uniquesh(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_uniquesh(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_uniquesh(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_uniquesh(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_uniquesh(mode),
                CRThree => { ffi::c_rthree_uniquesh(); true }
                CRRepl(i, j) => { ffi::c_rrepl_uniquesh(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_uniquesh(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_uniquesh(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_uniquesh(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_uniquesh(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_uniquesh(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 3;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_uniquesh(j: usize) -> &'static mut Option<UniquePtr<Sh>> { unsafe { &mut (*(&raw mut k_uniquesh::R))[j] } }
fn rput_uniquesh(j: usize, x: UniquePtr<Sh>) { *slot_uniquesh(j) = Some(x); }
fn rtake_uniquesh(j: usize) -> UniquePtr<Sh> { slot_uniquesh(j).take().unwrap() }
fn rtry_put_uniquesh(j: usize, x: UniquePtr<Sh>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_uniquesh(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_uniquesh(j: usize, mode: i32) -> Result<UniquePtr<Sh>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_uniquesh(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_uniquesh(x: UniquePtr<Sh>, y: UniquePtr<Sh>, mode: i32) -> Result<UniquePtr<Sh>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_uniquesh(a: u8, x: UniquePtr<Sh>, b: String, y: UniquePtr<Sh>, c: &str) -> UniquePtr<Sh> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_uniquesh(j: usize, x: &mut UniquePtr<Sh>) { std::mem::swap(slot_uniquesh(j).as_mut().unwrap(), x); }
fn rdeep_uniquesh(x: UniquePtr<Sh>, d: i32, mode: i32) -> Result<UniquePtr<Sh>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_uniquesh(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_uniquesh(&self, j: usize, x: UniquePtr<Sh>, mode: i32) -> Result<(), E> { rtry_put_uniquesh(j, x, mode) }
    fn rhtake_uniquesh(&mut self, j: usize, mode: i32) -> Result<UniquePtr<Sh>, E> { self.0 += 1; rtry_take_uniquesh(j, mode) }
}

fn mk_sharedsh(k: i32) -> SharedPtr<Sh> { SharedPtr::new(mk_sh(k)) }
fn val_sharedsh(x: &SharedPtr<Sh>) -> i32 { val_sh(x) }
pub mod k_sharedsh {
    use super::*;
    pub static mut R: [Option<SharedPtr<Sh>>; 2] = [const { None }; 2];
    fn f1(x: SharedPtr<Sh>) -> SharedPtr<Sh> { x }
    fn f2(x: SharedPtr<Sh>, y: SharedPtr<Sh>) -> SharedPtr<Sh> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_sharedsh(0); ffi::cdrop_sharedsh(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_sharedsh(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_sharedsh(i, k); true }
                CDrop(i) => { ffi::cdrop_sharedsh(i); true }
                Put(i, j) => { ffi::put_sharedsh(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_sharedsh(i)); true }
                TryPut(i, j, mode) => ffi::try_put_sharedsh(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_sharedsh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_sharedsh(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_sharedsh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_sharedsh(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_sharedsh(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_sharedsh(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_sharedsh(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_sharedsh(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_sharedsh(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_sharedsh(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_sharedsh(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_sharedsh(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_sharedsh(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_sharedsh(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_sharedsh(mode),
                CRThree => { ffi::c_rthree_sharedsh(); true }
                CRRepl(i, j) => { ffi::c_rrepl_sharedsh(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_sharedsh(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_sharedsh(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_sharedsh(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_sharedsh(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_sharedsh(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 3;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_sharedsh(j: usize) -> &'static mut Option<SharedPtr<Sh>> { unsafe { &mut (*(&raw mut k_sharedsh::R))[j] } }
fn rput_sharedsh(j: usize, x: SharedPtr<Sh>) { *slot_sharedsh(j) = Some(x); }
fn rtake_sharedsh(j: usize) -> SharedPtr<Sh> { slot_sharedsh(j).take().unwrap() }
fn rtry_put_sharedsh(j: usize, x: SharedPtr<Sh>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_sharedsh(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_sharedsh(j: usize, mode: i32) -> Result<SharedPtr<Sh>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_sharedsh(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_sharedsh(x: SharedPtr<Sh>, y: SharedPtr<Sh>, mode: i32) -> Result<SharedPtr<Sh>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_sharedsh(a: u8, x: SharedPtr<Sh>, b: String, y: SharedPtr<Sh>, c: &str) -> SharedPtr<Sh> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_sharedsh(j: usize, x: &mut SharedPtr<Sh>) { std::mem::swap(slot_sharedsh(j).as_mut().unwrap(), x); }
fn rdeep_sharedsh(x: SharedPtr<Sh>, d: i32, mode: i32) -> Result<SharedPtr<Sh>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_sharedsh(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_sharedsh(&self, j: usize, x: SharedPtr<Sh>, mode: i32) -> Result<(), E> { rtry_put_sharedsh(j, x, mode) }
    fn rhtake_sharedsh(&mut self, j: usize, mode: i32) -> Result<SharedPtr<Sh>, E> { self.0 += 1; rtry_take_sharedsh(j, mode) }
}

fn mk_arrbox(k: i32) -> [Box<RObj>; 2] { [Box::new(RObj::new(k)), Box::new(RObj::new(k))] }
fn val_arrbox(x: &[Box<RObj>; 2]) -> i32 { if x[0].val == x[1].val { x[0].val } else { -2 } }
pub mod k_arrbox {
    use super::*;
    pub static mut R: [Option<[Box<RObj>; 2]>; 2] = [const { None }; 2];
    fn f1(x: [Box<RObj>; 2]) -> [Box<RObj>; 2] { x }
    fn f2(x: [Box<RObj>; 2], y: [Box<RObj>; 2]) -> [Box<RObj>; 2] { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_arrbox(0); ffi::cdrop_arrbox(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_arrbox(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_arrbox(i, k); true }
                CDrop(i) => { ffi::cdrop_arrbox(i); true }
                Put(i, j) => { ffi::put_arrbox(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_arrbox(i)); true }
                TryPut(i, j, mode) => ffi::try_put_arrbox(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_arrbox(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_arrbox(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_arrbox(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_arrbox(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_arrbox(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_arrbox(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_arrbox(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_arrbox(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_arrbox(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_arrbox(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_arrbox(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_arrbox(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_arrbox(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_arrbox(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_arrbox(mode),
                CRThree => { ffi::c_rthree_arrbox(); true }
                CRRepl(i, j) => { ffi::c_rrepl_arrbox(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_arrbox(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_arrbox(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_arrbox(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_arrbox(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_arrbox(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 2;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_arrbox(j: usize) -> &'static mut Option<[Box<RObj>; 2]> { unsafe { &mut (*(&raw mut k_arrbox::R))[j] } }
fn rput_arrbox(j: usize, x: [Box<RObj>; 2]) { *slot_arrbox(j) = Some(x); }
fn rtake_arrbox(j: usize) -> [Box<RObj>; 2] { slot_arrbox(j).take().unwrap() }
fn rtry_put_arrbox(j: usize, x: [Box<RObj>; 2], mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_arrbox(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_arrbox(j: usize, mode: i32) -> Result<[Box<RObj>; 2], E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_arrbox(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_arrbox(x: [Box<RObj>; 2], y: [Box<RObj>; 2], mode: i32) -> Result<[Box<RObj>; 2], E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_arrbox(a: u8, x: [Box<RObj>; 2], b: String, y: [Box<RObj>; 2], c: &str) -> [Box<RObj>; 2] { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_arrbox(j: usize, x: &mut [Box<RObj>; 2]) { std::mem::swap(slot_arrbox(j).as_mut().unwrap(), x); }
fn rdeep_arrbox(x: [Box<RObj>; 2], d: i32, mode: i32) -> Result<[Box<RObj>; 2], E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_arrbox(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_arrbox(&self, j: usize, x: [Box<RObj>; 2], mode: i32) -> Result<(), E> { rtry_put_arrbox(j, x, mode) }
    fn rhtake_arrbox(&mut self, j: usize, mode: i32) -> Result<[Box<RObj>; 2], E> { self.0 += 1; rtry_take_arrbox(j, mode) }
}

fn mk_arrsh(k: i32) -> [Sh; 2] { [mk_sh(k), mk_sh(k)] }
fn val_arrsh(x: &[Sh; 2]) -> i32 { if val_sh(&x[0]) == val_sh(&x[1]) { val_sh(&x[0]) } else { -2 } }
pub mod k_arrsh {
    use super::*;
    pub static mut R: [Option<[Sh; 2]>; 2] = [const { None }; 2];
    fn f1(x: [Sh; 2]) -> [Sh; 2] { x }
    fn f2(x: [Sh; 2], y: [Sh; 2]) -> [Sh; 2] { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_arrsh(0); ffi::cdrop_arrsh(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_arrsh(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_arrsh(i, k); true }
                CDrop(i) => { ffi::cdrop_arrsh(i); true }
                Put(i, j) => { ffi::put_arrsh(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_arrsh(i)); true }
                TryPut(i, j, mode) => ffi::try_put_arrsh(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_arrsh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_arrsh(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_arrsh(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_arrsh(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_arrsh(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_arrsh(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_arrsh(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_arrsh(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_arrsh(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_arrsh(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_arrsh(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_arrsh(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_arrsh(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_arrsh(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_arrsh(mode),
                CRThree => { ffi::c_rthree_arrsh(); true }
                CRRepl(i, j) => { ffi::c_rrepl_arrsh(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_arrsh(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_arrsh(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_arrsh(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_arrsh(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_arrsh(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 6;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_arrsh(j: usize) -> &'static mut Option<[Sh; 2]> { unsafe { &mut (*(&raw mut k_arrsh::R))[j] } }
fn rput_arrsh(j: usize, x: [Sh; 2]) { *slot_arrsh(j) = Some(x); }
fn rtake_arrsh(j: usize) -> [Sh; 2] { slot_arrsh(j).take().unwrap() }
fn rtry_put_arrsh(j: usize, x: [Sh; 2], mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_arrsh(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_arrsh(j: usize, mode: i32) -> Result<[Sh; 2], E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_arrsh(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_arrsh(x: [Sh; 2], y: [Sh; 2], mode: i32) -> Result<[Sh; 2], E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_arrsh(a: u8, x: [Sh; 2], b: String, y: [Sh; 2], c: &str) -> [Sh; 2] { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_arrsh(j: usize, x: &mut [Sh; 2]) { std::mem::swap(slot_arrsh(j).as_mut().unwrap(), x); }
fn rdeep_arrsh(x: [Sh; 2], d: i32, mode: i32) -> Result<[Sh; 2], E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_arrsh(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_arrsh(&self, j: usize, x: [Sh; 2], mode: i32) -> Result<(), E> { rtry_put_arrsh(j, x, mode) }
    fn rhtake_arrsh(&mut self, j: usize, mode: i32) -> Result<[Sh; 2], E> { self.0 += 1; rtry_take_arrsh(j, mode) }
}

fn mk_tracked(k: i32) -> Tracked { Tracked::new(k) }
fn val_tracked(x: &Tracked) -> i32 { x.val }
pub mod k_tracked {
    use super::*;
    pub static mut R: [Option<Tracked>; 2] = [const { None }; 2];
    fn f1(x: Tracked) -> Tracked { x }
    fn f2(x: Tracked, y: Tracked) -> Tracked { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_tracked(0); ffi::cdrop_tracked(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_tracked(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_tracked(i, k); true }
                CDrop(i) => { ffi::cdrop_tracked(i); true }
                Put(i, j) => { ffi::put_tracked(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_tracked(i)); true }
                TryPut(i, j, mode) => ffi::try_put_tracked(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_tracked(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_tracked(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_tracked(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_tracked(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_tracked(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_tracked(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_tracked(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_tracked(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_tracked(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_tracked(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_tracked(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_tracked(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_tracked(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_tracked(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_tracked(mode),
                CRThree => { ffi::c_rthree_tracked(); true }
                CRRepl(i, j) => { ffi::c_rrepl_tracked(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_tracked(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_tracked(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_tracked(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_tracked(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_tracked(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 1;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_tracked(j: usize) -> &'static mut Option<Tracked> { unsafe { &mut (*(&raw mut k_tracked::R))[j] } }
fn rput_tracked(j: usize, x: Tracked) { *slot_tracked(j) = Some(x); }
fn rtake_tracked(j: usize) -> Tracked { slot_tracked(j).take().unwrap() }
fn rtry_put_tracked(j: usize, x: Tracked, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_tracked(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_tracked(j: usize, mode: i32) -> Result<Tracked, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_tracked(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_tracked(x: Tracked, y: Tracked, mode: i32) -> Result<Tracked, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_tracked(a: u8, x: Tracked, b: String, y: Tracked, c: &str) -> Tracked { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_tracked(j: usize, x: &mut Tracked) { std::mem::swap(slot_tracked(j).as_mut().unwrap(), x); }
fn rdeep_tracked(x: Tracked, d: i32, mode: i32) -> Result<Tracked, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_tracked(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_tracked(&self, j: usize, x: Tracked, mode: i32) -> Result<(), E> { rtry_put_tracked(j, x, mode) }
    fn rhtake_tracked(&mut self, j: usize, mode: i32) -> Result<Tracked, E> { self.0 += 1; rtry_take_tracked(j, mode) }
}

fn mk_vectr(k: i32) -> Vec<Tracked> { vec![Tracked::new(k)] }
fn val_vectr(x: &Vec<Tracked>) -> i32 { if x.len() == 1 { x[0].val } else { -2 } }
pub mod k_vectr {
    use super::*;
    pub static mut R: [Option<Vec<Tracked>>; 2] = [const { None }; 2];
    fn f1(x: Vec<Tracked>) -> Vec<Tracked> { x }
    fn f2(x: Vec<Tracked>, y: Vec<Tracked>) -> Vec<Tracked> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_vectr(0); ffi::cdrop_vectr(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_vectr(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_vectr(i, k); true }
                CDrop(i) => { ffi::cdrop_vectr(i); true }
                Put(i, j) => { ffi::put_vectr(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_vectr(i)); true }
                TryPut(i, j, mode) => ffi::try_put_vectr(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_vectr(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_vectr(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_vectr(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_vectr(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_vectr(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_vectr(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_vectr(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_vectr(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_vectr(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_vectr(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_vectr(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_vectr(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_vectr(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_vectr(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_vectr(mode),
                CRThree => { ffi::c_rthree_vectr(); true }
                CRRepl(i, j) => { ffi::c_rrepl_vectr(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_vectr(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_vectr(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_vectr(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_vectr(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_vectr(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 1;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_vectr(j: usize) -> &'static mut Option<Vec<Tracked>> { unsafe { &mut (*(&raw mut k_vectr::R))[j] } }
fn rput_vectr(j: usize, x: Vec<Tracked>) { *slot_vectr(j) = Some(x); }
fn rtake_vectr(j: usize) -> Vec<Tracked> { slot_vectr(j).take().unwrap() }
fn rtry_put_vectr(j: usize, x: Vec<Tracked>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_vectr(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_vectr(j: usize, mode: i32) -> Result<Vec<Tracked>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_vectr(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_vectr(x: Vec<Tracked>, y: Vec<Tracked>, mode: i32) -> Result<Vec<Tracked>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_vectr(a: u8, x: Vec<Tracked>, b: String, y: Vec<Tracked>, c: &str) -> Vec<Tracked> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_vectr(j: usize, x: &mut Vec<Tracked>) { std::mem::swap(slot_vectr(j).as_mut().unwrap(), x); }
fn rdeep_vectr(x: Vec<Tracked>, d: i32, mode: i32) -> Result<Vec<Tracked>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_vectr(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_vectr(&self, j: usize, x: Vec<Tracked>, mode: i32) -> Result<(), E> { rtry_put_vectr(j, x, mode) }
    fn rhtake_vectr(&mut self, j: usize, mode: i32) -> Result<Vec<Tracked>, E> { self.0 += 1; rtry_take_vectr(j, mode) }
}

fn mk_boxtr(k: i32) -> Box<Tracked> { Box::new(Tracked::new(k)) }
fn val_boxtr(x: &Box<Tracked>) -> i32 { x.val }
pub mod k_boxtr {
    use super::*;
    pub static mut R: [Option<Box<Tracked>>; 2] = [const { None }; 2];
    fn f1(x: Box<Tracked>) -> Box<Tracked> { x }
    fn f2(x: Box<Tracked>, y: Box<Tracked>) -> Box<Tracked> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_boxtr(0); ffi::cdrop_boxtr(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_boxtr(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_boxtr(i, k); true }
                CDrop(i) => { ffi::cdrop_boxtr(i); true }
                Put(i, j) => { ffi::put_boxtr(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_boxtr(i)); true }
                TryPut(i, j, mode) => ffi::try_put_boxtr(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_boxtr(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_boxtr(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_boxtr(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_boxtr(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_boxtr(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_boxtr(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_boxtr(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_boxtr(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_boxtr(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_boxtr(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_boxtr(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_boxtr(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_boxtr(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_boxtr(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_boxtr(mode),
                CRThree => { ffi::c_rthree_boxtr(); true }
                CRRepl(i, j) => { ffi::c_rrepl_boxtr(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_boxtr(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_boxtr(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_boxtr(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_boxtr(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_boxtr(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 1;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_boxtr(j: usize) -> &'static mut Option<Box<Tracked>> { unsafe { &mut (*(&raw mut k_boxtr::R))[j] } }
fn rput_boxtr(j: usize, x: Box<Tracked>) { *slot_boxtr(j) = Some(x); }
fn rtake_boxtr(j: usize) -> Box<Tracked> { slot_boxtr(j).take().unwrap() }
fn rtry_put_boxtr(j: usize, x: Box<Tracked>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_boxtr(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_boxtr(j: usize, mode: i32) -> Result<Box<Tracked>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_boxtr(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_boxtr(x: Box<Tracked>, y: Box<Tracked>, mode: i32) -> Result<Box<Tracked>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_boxtr(a: u8, x: Box<Tracked>, b: String, y: Box<Tracked>, c: &str) -> Box<Tracked> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_boxtr(j: usize, x: &mut Box<Tracked>) { std::mem::swap(slot_boxtr(j).as_mut().unwrap(), x); }
fn rdeep_boxtr(x: Box<Tracked>, d: i32, mode: i32) -> Result<Box<Tracked>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_boxtr(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_boxtr(&self, j: usize, x: Box<Tracked>, mode: i32) -> Result<(), E> { rtry_put_boxtr(j, x, mode) }
    fn rhtake_boxtr(&mut self, j: usize, mode: i32) -> Result<Box<Tracked>, E> { self.0 += 1; rtry_take_boxtr(j, mode) }
}

fn mk_vecstr(k: i32) -> Vec<String> { vec![text(k), text(k)] }
fn val_vecstr(x: &Vec<String>) -> i32 { if x.len() == 2 { val_string(&x[0]) } else { -2 } }
pub mod k_vecstr {
    use super::*;
    pub static mut R: [Option<Vec<String>>; 2] = [const { None }; 2];
    fn f1(x: Vec<String>) -> Vec<String> { x }
    fn f2(x: Vec<String>, y: Vec<String>) -> Vec<String> { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_vecstr(0); ffi::cdrop_vecstr(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_vecstr(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_vecstr(i, k); true }
                CDrop(i) => { ffi::cdrop_vecstr(i); true }
                Put(i, j) => { ffi::put_vecstr(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_vecstr(i)); true }
                TryPut(i, j, mode) => ffi::try_put_vecstr(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_vecstr(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_vecstr(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_vecstr(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_vecstr(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_vecstr(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_vecstr(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_vecstr(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_vecstr(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_vecstr(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_vecstr(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_vecstr(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_vecstr(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_vecstr(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_vecstr(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_vecstr(mode),
                CRThree => { ffi::c_rthree_vecstr(); true }
                CRRepl(i, j) => { ffi::c_rrepl_vecstr(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_vecstr(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_vecstr(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_vecstr(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_vecstr(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_vecstr(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 0;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_vecstr(j: usize) -> &'static mut Option<Vec<String>> { unsafe { &mut (*(&raw mut k_vecstr::R))[j] } }
fn rput_vecstr(j: usize, x: Vec<String>) { *slot_vecstr(j) = Some(x); }
fn rtake_vecstr(j: usize) -> Vec<String> { slot_vecstr(j).take().unwrap() }
fn rtry_put_vecstr(j: usize, x: Vec<String>, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_vecstr(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_vecstr(j: usize, mode: i32) -> Result<Vec<String>, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_vecstr(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_vecstr(x: Vec<String>, y: Vec<String>, mode: i32) -> Result<Vec<String>, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_vecstr(a: u8, x: Vec<String>, b: String, y: Vec<String>, c: &str) -> Vec<String> { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_vecstr(j: usize, x: &mut Vec<String>) { std::mem::swap(slot_vecstr(j).as_mut().unwrap(), x); }
fn rdeep_vecstr(x: Vec<String>, d: i32, mode: i32) -> Result<Vec<String>, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_vecstr(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_vecstr(&self, j: usize, x: Vec<String>, mode: i32) -> Result<(), E> { rtry_put_vecstr(j, x, mode) }
    fn rhtake_vecstr(&mut self, j: usize, mode: i32) -> Result<Vec<String>, E> { self.0 += 1; rtry_take_vecstr(j, mode) }
}

fn mk_one(k: i32) -> One { One { b: Box::new(RObj::new(k)) } }
fn val_one(x: &One) -> i32 { x.b.val }
pub mod k_one {
    use super::*;
    pub static mut R: [Option<One>; 2] = [const { None }; 2];
    fn f1(x: One) -> One { x }
    fn f2(x: One, y: One) -> One { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_one(0); ffi::cdrop_one(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_one(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_one(i, k); true }
                CDrop(i) => { ffi::cdrop_one(i); true }
                Put(i, j) => { ffi::put_one(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_one(i)); true }
                TryPut(i, j, mode) => ffi::try_put_one(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_one(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_one(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_one(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_one(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_one(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_one(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_one(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_one(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_one(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_one(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_one(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_one(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_one(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_one(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_one(mode),
                CRThree => { ffi::c_rthree_one(); true }
                CRRepl(i, j) => { ffi::c_rrepl_one(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_one(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_one(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_one(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_one(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_one(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 1;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_one(j: usize) -> &'static mut Option<One> { unsafe { &mut (*(&raw mut k_one::R))[j] } }
fn rput_one(j: usize, x: One) { *slot_one(j) = Some(x); }
fn rtake_one(j: usize) -> One { slot_one(j).take().unwrap() }
fn rtry_put_one(j: usize, x: One, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_one(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_one(j: usize, mode: i32) -> Result<One, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_one(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_one(x: One, y: One, mode: i32) -> Result<One, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_one(a: u8, x: One, b: String, y: One, c: &str) -> One { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_one(j: usize, x: &mut One) { std::mem::swap(slot_one(j).as_mut().unwrap(), x); }
fn rdeep_one(x: One, d: i32, mode: i32) -> Result<One, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_one(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_one(&self, j: usize, x: One, mode: i32) -> Result<(), E> { rtry_put_one(j, x, mode) }
    fn rhtake_one(&mut self, j: usize, mode: i32) -> Result<One, E> { self.0 += 1; rtry_take_one(j, mode) }
}

fn mk_onet(k: i32) -> OneT { OneT { t: Tracked::new(k) } }
fn val_onet(x: &OneT) -> i32 { x.t.val }
pub mod k_onet {
    use super::*;
    pub static mut R: [Option<OneT>; 2] = [const { None }; 2];
    fn f1(x: OneT) -> OneT { x }
    fn f2(x: OneT, y: OneT) -> OneT { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_onet(0); ffi::cdrop_onet(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_onet(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_onet(i, k); true }
                CDrop(i) => { ffi::cdrop_onet(i); true }
                Put(i, j) => { ffi::put_onet(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_onet(i)); true }
                TryPut(i, j, mode) => ffi::try_put_onet(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_onet(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_onet(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_onet(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_onet(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_onet(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_onet(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_onet(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_onet(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_onet(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_onet(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_onet(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_onet(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_onet(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_onet(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_onet(mode),
                CRThree => { ffi::c_rthree_onet(); true }
                CRRepl(i, j) => { ffi::c_rrepl_onet(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_onet(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_onet(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_onet(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_onet(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_onet(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 1;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_onet(j: usize) -> &'static mut Option<OneT> { unsafe { &mut (*(&raw mut k_onet::R))[j] } }
fn rput_onet(j: usize, x: OneT) { *slot_onet(j) = Some(x); }
fn rtake_onet(j: usize) -> OneT { slot_onet(j).take().unwrap() }
fn rtry_put_onet(j: usize, x: OneT, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_onet(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_onet(j: usize, mode: i32) -> Result<OneT, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_onet(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_onet(x: OneT, y: OneT, mode: i32) -> Result<OneT, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_onet(a: u8, x: OneT, b: String, y: OneT, c: &str) -> OneT { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_onet(j: usize, x: &mut OneT) { std::mem::swap(slot_onet(j).as_mut().unwrap(), x); }
fn rdeep_onet(x: OneT, d: i32, mode: i32) -> Result<OneT, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_onet(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_onet(&self, j: usize, x: OneT, mode: i32) -> Result<(), E> { rtry_put_onet(j, x, mode) }
    fn rhtake_onet(&mut self, j: usize, mode: i32) -> Result<OneT, E> { self.0 += 1; rtry_take_onet(j, mode) }
}

fn mk_nest(k: i32) -> Nest { Nest { t: Tracked::new(k), n: k as u8, x: mk_sh(k), y: [text(k), text(k)], o: One { b: Box::new(RObj::new(k)) } } }
fn val_nest(x: &Nest) -> i32 { if x.n as i32 == x.t.val && val_sh(&x.x) == x.t.val && x.y[0] == x.y[1] && x.o.b.val == x.t.val { val_string(&x.y[1]) } else { -2 } }
pub mod k_nest {
    use super::*;
    pub static mut R: [Option<Nest>; 2] = [const { None }; 2];
    fn f1(x: Nest) -> Nest { x }
    fn f2(x: Nest, y: Nest) -> Nest { drop(x); y }
    fn reset() { unsafe { (*(&raw mut R))[0] = None; (*(&raw mut R))[1] = None; } ffi::cdrop_nest(0); ffi::cdrop_nest(1); }
    pub fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        let r = history1(all, t, key);
        reset();
        let r = r?;
        ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
        ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
        Ok(r)
    }
    fn history1(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
        use Op::*;
        let r = unsafe { &mut *(&raw mut R) };
        let mut m: M = M::default();
        let mut rh = RHolder(0);
        for &o in t {
            let o = all[o as usize];
            if !enabled(o, &m) { return Ok(false); }
            let want = model(o, &mut m);
            let got = match o {
                RNew(j, k) => { r[j] = Some(mk_nest(k)); true }
                RDrop(j) => { r[j] = None; true }
                CNew(i, k) => { ffi::cnew_nest(i, k); true }
                CDrop(i) => { ffi::cdrop_nest(i); true }
                Put(i, j) => { ffi::put_nest(i, r[j].take().unwrap()); true }
                Take(i, j) => { r[j] = None; r[j] = Some(ffi::take_nest(i)); true }
                TryPut(i, j, mode) => ffi::try_put_nest(i, r[j].take().unwrap(), mode).is_ok(),
                TryTake(i, j, mode) => match ffi::try_take_nest(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                HPut(i, j, mode) => unsafe { &*ffi::holder() }.hput_nest(i, r[j].take().unwrap(), mode).is_ok(),
                HTake(i, j, mode) => match unsafe { Pin::new_unchecked(&mut *ffi::holder()) }.htake_nest(i, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                Two(mode) => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); match ffi::two_nest(x, y, mode) { Ok(x) => { r[0] = Some(x); true } Err(_) => false } }
                Three => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[1] = Some(ffi::three_nest(1, x, text(2), y, "z")); true }
                Cb(j) => { r[j] = Some(ffi::cb_nest(f1, r[j].take().unwrap())); true }
                Cb2 => { let (x, y) = (r[0].take().unwrap(), r[1].take().unwrap()); r[0] = Some(ffi::cb2_nest(f2, x, y)); true }
                Repl(i, j) => { ffi::repl_nest(i, r[j].as_mut().unwrap()); true }
                Deep(j, d, mode) => match ffi::deep_nest(r[j].take().unwrap(), d, mode) { Ok(x) => { r[j] = Some(x); true } Err(_) => false },
                CRPut(i, j) => { ffi::c_rput_nest(i, j); true }
                CRTake(i, j) => { ffi::c_rtake_nest(i, j); true }
                CRIgnore(j) => { ffi::c_rignore_nest(j); true }
                CRTryPut(i, j, mode) => ffi::c_rtry_put_nest(i, j, mode),
                CRTryTake(i, j, mode) => ffi::c_rtry_take_nest(i, j, mode),
                CRTwo(mode) => ffi::c_rtwo_nest(mode),
                CRThree => { ffi::c_rthree_nest(); true }
                CRRepl(i, j) => { ffi::c_rrepl_nest(i, j); true }
                CRDeep(i, d, mode) => ffi::c_rdeep_nest(i, d, mode),
                CRHPut(i, j, mode) => ffi::c_rhput_nest(&rh, i, j, mode),
                CRHTake(i, j, mode) => ffi::c_rhtake_nest(Pin::new(&mut rh), i, j, mode),
            };
            ensure!(got == want, "{:?} {}", o, if got { "succeeded" } else { "failed" });
            ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
            for n in 0..2 {
                let v = r[n].as_ref().map(|x| val_nest(x));
                ensure!(v == m.r[n], "Rust slot {} holds {:?}, expected {:?}", n, v, m.r[n]);
                let v = ffi::cval_nest(n);
                ensure!(v == m.c[n].unwrap_or(-1), "C++ slot {} holds {:?}, expected {:?}", n, v, m.c[n]);
            }
            let n = m.r.iter().chain(&m.c).filter(|x| x.is_some()).count() as i64 * 5;
            ensure!(ffi::live() == n, "{} objects are alive, expected {}", ffi::live(), n);
        }
        for x in m.r.iter().chain(&m.c) { key.push(x.map_or(9, |v| v as u8)); }
        Ok(true)
    }
}
fn slot_nest(j: usize) -> &'static mut Option<Nest> { unsafe { &mut (*(&raw mut k_nest::R))[j] } }
fn rput_nest(j: usize, x: Nest) { *slot_nest(j) = Some(x); }
fn rtake_nest(j: usize) -> Nest { slot_nest(j).take().unwrap() }
fn rtry_put_nest(j: usize, x: Nest, mode: i32) -> Result<(), E> {
    if mode == 1 { return Err(E::new()); }
    *slot_nest(j) = Some(x);
    if mode == 2 { return Err(E::new()); }
    Ok(())
}
fn rtry_take_nest(j: usize, mode: i32) -> Result<Nest, E> {
    if mode == 1 { return Err(E::new()); }
    let x = slot_nest(j).take().unwrap();
    if mode == 2 { return Err(E::new()); }
    Ok(x)
}
fn rtwo_nest(x: Nest, y: Nest, mode: i32) -> Result<Nest, E> { match mode { 0 => Ok(x), 3 => Ok(y), _ => Err(E::new()) } }
fn rthree_nest(a: u8, x: Nest, b: String, y: Nest, c: &str) -> Nest { assert!(a == 1 && b == text(2) && c == "z"); drop(x); y }
fn rrepl_nest(j: usize, x: &mut Nest) { std::mem::swap(slot_nest(j).as_mut().unwrap(), x); }
fn rdeep_nest(x: Nest, d: i32, mode: i32) -> Result<Nest, E> {
    if d == 0 { return if mode == 0 { Ok(x) } else { Err(E::new()) }; }
    ffi::deep_nest(x, d - 1, mode).map_err(|_| E::new())
}
impl RHolder {
    fn rhput_nest(&self, j: usize, x: Nest, mode: i32) -> Result<(), E> { rtry_put_nest(j, x, mode) }
    fn rhtake_nest(&mut self, j: usize, mode: i32) -> Result<Nest, E> { self.0 += 1; rtry_take_nest(j, mode) }
}

// Taking a struct apart and putting it together again, in both languages.
fn repack(all: &[u8], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    let r = (|| {
        let mut x = mk_sh(2);
        for &o in t {
            x = match all[o as usize] {
                0 => { let b = ffi::unpack(x); Sh { b, u: ffi::mkcobj(2), s: text(2), v: vec![2; 3], p: ffi::mkshared(2) } }
                1 => { let Sh { b, u, s, v, p } = x; drop(u); Sh { b, u: ffi::mkcobj(2), s, v, p } }
                2 => { let Sh { b, u, s, v, p } = x; Sh { b, u, s: s.clone(), v: v.clone(), p: p.clone() } }
                3 => { let v = ffi::two_sh(x, mk_sh(1), 0).map_err(|e| e.to_string())?; v }
                _ => { let Sh { b, u, s, v, p } = x; ffi::put_box(0, b); ffi::put_unique(0, u); ffi::put_string(0, s); ffi::put_shared(0, p); Sh { b: ffi::take_box(0), u: ffi::take_unique(0), s: ffi::take_string(0), v, p: ffi::take_shared(0) } }
            };
            ensure!(val_sh(&x) == 2);
            ensure!(ffi::live() == 3, "{} objects are alive, expected 3", ffi::live());
        }
        Ok(true)
    })();
    ensure!(ffi::live() == 0, "{} objects leaked", ffi::live());
    ensure!(!ffi::bad(), "an object was destroyed twice or used after its destruction");
    key.extend(t.iter().map(|x| *x as u8));
    r
}
pub fn systems() -> Vec<System> {
    let mut v = vec![rust_system("own-repack", ["unpack in C++", "replace field", "clone fields", "through C++", "field by field"].map(String::from).to_vec(), |t, k| repack(&[0, 1, 2, 3, 4], t, k))];
    v.push(rust_system("own-box", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_box::history(&all, t, k) }));
    v.push(rust_system("own-vec", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_vec::history(&all, t, k) }));
    v.push(rust_system("own-string", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_string::history(&all, t, k) }));
    v.push(rust_system("own-unique", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_unique::history(&all, t, k) }));
    v.push(rust_system("own-base", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_base::history(&all, t, k) }));
    v.push(rust_system("own-shared", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_shared::history(&all, t, k) }));
    v.push(rust_system("own-ustring", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_ustring::history(&all, t, k) }));
    v.push(rust_system("own-uvec", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_uvec::history(&all, t, k) }));
    v.push(rust_system("own-sh", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_sh::history(&all, t, k) }));
    v.push(rust_system("own-vecsh", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_vecsh::history(&all, t, k) }));
    v.push(rust_system("own-boxsh", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_boxsh::history(&all, t, k) }));
    v.push(rust_system("own-uniquesh", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_uniquesh::history(&all, t, k) }));
    v.push(rust_system("own-sharedsh", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_sharedsh::history(&all, t, k) }));
    v.push(rust_system("own-arrbox", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_arrbox::history(&all, t, k) }));
    v.push(rust_system("own-arrsh", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_arrsh::history(&all, t, k) }));
    v.push(rust_system("own-tracked", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_tracked::history(&all, t, k) }));
    v.push(rust_system("own-vectr", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_vectr::history(&all, t, k) }));
    v.push(rust_system("own-boxtr", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_boxtr::history(&all, t, k) }));
    v.push(rust_system("own-vecstr", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_vecstr::history(&all, t, k) }));
    v.push(rust_system("own-one", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_one::history(&all, t, k) }));
    v.push(rust_system("own-onet", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_onet::history(&all, t, k) }));
    v.push(rust_system("own-nest", ops().iter().map(|o| format!("{:?}", o)).collect(), { let all = ops(); move |t, k| k_nest::history(&all, t, k) }));
    v
}
