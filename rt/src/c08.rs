//! Generated by gen_c08.py.
//! C08: UniquePtr, SharedPtr, WeakPtr against an ownership model.
use crate::engine::{panics, rust_system, System};
use crate::ensure;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::{IoSlice, Read, Seek, SeekFrom, Write};
use std::pin::Pin;

#[cxx::bridge(namespace = "c08")]
mod ffi {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct Sh {
        n: i32,
        s: String,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct P3 {
        a: u8,
        b: u8,
        c: u8,
    }
    #[repr(i16)]
    #[derive(Debug, PartialOrd, Ord, Hash)]
    enum En {
        A = 0,
        B = 1,
        C = 2,
        D = 32767,
    }
    struct Look {
        null: bool,
        val: i32,
        addr: usize,
    }
    unsafe extern "C++" {
        include!("rt/cc/c08.hpp");
        type Obj;
        type Poly;
        type Tracked = crate::c08::Tracked;
        type TrackedA = crate::c08::TrackedA;
        fn oval(self: &Obj) -> i32;
        fn oset(self: Pin<&mut Obj>, k: i32);
        fn pval(self: &Poly) -> i32;
        fn pset(self: Pin<&mut Poly>, k: i32);
        fn live() -> i64;
        fn bad() -> bool;
        fn own_news() -> i64;
        fn string_set(s: Pin<&mut CxxString>, k: i32);
        fn tracked_mk(k: i32) -> Tracked;
        fn vobj_set(s: Pin<&mut CxxVector<Obj>>, k: i32);
        fn vobj_val(s: &CxxVector<Obj>) -> i32;
        fn vstring_set(s: Pin<&mut CxxVector<CxxString>>, k: i32);
        fn umake_obj(k: i32) -> UniquePtr<Obj>;
        fn utake_obj(p: UniquePtr<Obj>) -> i32;
        fn uecho_obj(p: UniquePtr<Obj>) -> UniquePtr<Obj>;
        fn ureset_obj(p: &mut UniquePtr<Obj>, k: i32);
        fn ulook_obj(p: &UniquePtr<Obj>) -> Look;
        fn umake_poly(k: i32) -> UniquePtr<Poly>;
        fn utake_poly(p: UniquePtr<Poly>) -> i32;
        fn uecho_poly(p: UniquePtr<Poly>) -> UniquePtr<Poly>;
        fn ureset_poly(p: &mut UniquePtr<Poly>, k: i32);
        fn ulook_poly(p: &UniquePtr<Poly>) -> Look;
        fn umake_sh(k: i32) -> UniquePtr<Sh>;
        fn utake_sh(p: UniquePtr<Sh>) -> i32;
        fn uecho_sh(p: UniquePtr<Sh>) -> UniquePtr<Sh>;
        fn ureset_sh(p: &mut UniquePtr<Sh>, k: i32);
        fn ulook_sh(p: &UniquePtr<Sh>) -> Look;
        fn umake_p3(k: i32) -> UniquePtr<P3>;
        fn utake_p3(p: UniquePtr<P3>) -> i32;
        fn uecho_p3(p: UniquePtr<P3>) -> UniquePtr<P3>;
        fn ureset_p3(p: &mut UniquePtr<P3>, k: i32);
        fn ulook_p3(p: &UniquePtr<P3>) -> Look;
        fn umake_en(k: i32) -> UniquePtr<En>;
        fn utake_en(p: UniquePtr<En>) -> i32;
        fn uecho_en(p: UniquePtr<En>) -> UniquePtr<En>;
        fn ureset_en(p: &mut UniquePtr<En>, k: i32);
        fn ulook_en(p: &UniquePtr<En>) -> Look;
        fn umake_tracked(k: i32) -> UniquePtr<Tracked>;
        fn utake_tracked(p: UniquePtr<Tracked>) -> i32;
        fn uecho_tracked(p: UniquePtr<Tracked>) -> UniquePtr<Tracked>;
        fn ureset_tracked(p: &mut UniquePtr<Tracked>, k: i32);
        fn ulook_tracked(p: &UniquePtr<Tracked>) -> Look;
        fn umake_trackeda(k: i32) -> UniquePtr<TrackedA>;
        fn utake_trackeda(p: UniquePtr<TrackedA>) -> i32;
        fn uecho_trackeda(p: UniquePtr<TrackedA>) -> UniquePtr<TrackedA>;
        fn ureset_trackeda(p: &mut UniquePtr<TrackedA>, k: i32);
        fn ulook_trackeda(p: &UniquePtr<TrackedA>) -> Look;
        fn umake_string(k: i32) -> UniquePtr<CxxString>;
        fn utake_string(p: UniquePtr<CxxString>) -> i32;
        fn uecho_string(p: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn ureset_string(p: &mut UniquePtr<CxxString>, k: i32);
        fn ulook_string(p: &UniquePtr<CxxString>) -> Look;
        fn umake_vi32(k: i32) -> UniquePtr<CxxVector<i32>>;
        fn utake_vi32(p: UniquePtr<CxxVector<i32>>) -> i32;
        fn uecho_vi32(p: UniquePtr<CxxVector<i32>>) -> UniquePtr<CxxVector<i32>>;
        fn ureset_vi32(p: &mut UniquePtr<CxxVector<i32>>, k: i32);
        fn ulook_vi32(p: &UniquePtr<CxxVector<i32>>) -> Look;
        fn umake_vstring(k: i32) -> UniquePtr<CxxVector<CxxString>>;
        fn utake_vstring(p: UniquePtr<CxxVector<CxxString>>) -> i32;
        fn uecho_vstring(p: UniquePtr<CxxVector<CxxString>>) -> UniquePtr<CxxVector<CxxString>>;
        fn ureset_vstring(p: &mut UniquePtr<CxxVector<CxxString>>, k: i32);
        fn ulook_vstring(p: &UniquePtr<CxxVector<CxxString>>) -> Look;
        fn umake_vsh(k: i32) -> UniquePtr<CxxVector<Sh>>;
        fn utake_vsh(p: UniquePtr<CxxVector<Sh>>) -> i32;
        fn uecho_vsh(p: UniquePtr<CxxVector<Sh>>) -> UniquePtr<CxxVector<Sh>>;
        fn ureset_vsh(p: &mut UniquePtr<CxxVector<Sh>>, k: i32);
        fn ulook_vsh(p: &UniquePtr<CxxVector<Sh>>) -> Look;
        fn umake_vobj(k: i32) -> UniquePtr<CxxVector<Obj>>;
        fn utake_vobj(p: UniquePtr<CxxVector<Obj>>) -> i32;
        fn uecho_vobj(p: UniquePtr<CxxVector<Obj>>) -> UniquePtr<CxxVector<Obj>>;
        fn ureset_vobj(p: &mut UniquePtr<CxxVector<Obj>>, k: i32);
        fn ulook_vobj(p: &UniquePtr<CxxVector<Obj>>) -> Look;
        fn smake_obj(k: i32) -> SharedPtr<Obj>;
        fn stake_obj(p: SharedPtr<Obj>) -> i32;
        fn secho_obj(p: SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn sreset_obj(p: &mut SharedPtr<Obj>, k: i32);
        fn slook_obj(p: &SharedPtr<Obj>) -> Look;
        fn suse_obj(p: &SharedPtr<Obj>) -> i64;
        fn salias_obj(p: &SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn hold_obj(p: &SharedPtr<Obj>);
        fn held_obj() -> SharedPtr<Obj>;
        fn wmake_obj(p: SharedPtr<Obj>) -> WeakPtr<Obj>;
        fn wecho_obj(p: WeakPtr<Obj>) -> WeakPtr<Obj>;
        fn wlook_obj(p: &WeakPtr<Obj>) -> Look;
        fn smake_poly(k: i32) -> SharedPtr<Poly>;
        fn stake_poly(p: SharedPtr<Poly>) -> i32;
        fn secho_poly(p: SharedPtr<Poly>) -> SharedPtr<Poly>;
        fn sreset_poly(p: &mut SharedPtr<Poly>, k: i32);
        fn slook_poly(p: &SharedPtr<Poly>) -> Look;
        fn suse_poly(p: &SharedPtr<Poly>) -> i64;
        fn salias_poly(p: &SharedPtr<Poly>) -> SharedPtr<Poly>;
        fn hold_poly(p: &SharedPtr<Poly>);
        fn held_poly() -> SharedPtr<Poly>;
        fn wmake_poly(p: SharedPtr<Poly>) -> WeakPtr<Poly>;
        fn wecho_poly(p: WeakPtr<Poly>) -> WeakPtr<Poly>;
        fn wlook_poly(p: &WeakPtr<Poly>) -> Look;
        fn smake_sh(k: i32) -> SharedPtr<Sh>;
        fn stake_sh(p: SharedPtr<Sh>) -> i32;
        fn secho_sh(p: SharedPtr<Sh>) -> SharedPtr<Sh>;
        fn sreset_sh(p: &mut SharedPtr<Sh>, k: i32);
        fn slook_sh(p: &SharedPtr<Sh>) -> Look;
        fn suse_sh(p: &SharedPtr<Sh>) -> i64;
        fn salias_sh(p: &SharedPtr<Sh>) -> SharedPtr<Sh>;
        fn hold_sh(p: &SharedPtr<Sh>);
        fn held_sh() -> SharedPtr<Sh>;
        fn wmake_sh(p: SharedPtr<Sh>) -> WeakPtr<Sh>;
        fn wecho_sh(p: WeakPtr<Sh>) -> WeakPtr<Sh>;
        fn wlook_sh(p: &WeakPtr<Sh>) -> Look;
        fn smake_p3(k: i32) -> SharedPtr<P3>;
        fn stake_p3(p: SharedPtr<P3>) -> i32;
        fn secho_p3(p: SharedPtr<P3>) -> SharedPtr<P3>;
        fn sreset_p3(p: &mut SharedPtr<P3>, k: i32);
        fn slook_p3(p: &SharedPtr<P3>) -> Look;
        fn suse_p3(p: &SharedPtr<P3>) -> i64;
        fn salias_p3(p: &SharedPtr<P3>) -> SharedPtr<P3>;
        fn hold_p3(p: &SharedPtr<P3>);
        fn held_p3() -> SharedPtr<P3>;
        fn wmake_p3(p: SharedPtr<P3>) -> WeakPtr<P3>;
        fn wecho_p3(p: WeakPtr<P3>) -> WeakPtr<P3>;
        fn wlook_p3(p: &WeakPtr<P3>) -> Look;
        fn smake_en(k: i32) -> SharedPtr<En>;
        fn stake_en(p: SharedPtr<En>) -> i32;
        fn secho_en(p: SharedPtr<En>) -> SharedPtr<En>;
        fn sreset_en(p: &mut SharedPtr<En>, k: i32);
        fn slook_en(p: &SharedPtr<En>) -> Look;
        fn suse_en(p: &SharedPtr<En>) -> i64;
        fn salias_en(p: &SharedPtr<En>) -> SharedPtr<En>;
        fn hold_en(p: &SharedPtr<En>);
        fn held_en() -> SharedPtr<En>;
        fn wmake_en(p: SharedPtr<En>) -> WeakPtr<En>;
        fn wecho_en(p: WeakPtr<En>) -> WeakPtr<En>;
        fn wlook_en(p: &WeakPtr<En>) -> Look;
        fn smake_tracked(k: i32) -> SharedPtr<Tracked>;
        fn stake_tracked(p: SharedPtr<Tracked>) -> i32;
        fn secho_tracked(p: SharedPtr<Tracked>) -> SharedPtr<Tracked>;
        fn sreset_tracked(p: &mut SharedPtr<Tracked>, k: i32);
        fn slook_tracked(p: &SharedPtr<Tracked>) -> Look;
        fn suse_tracked(p: &SharedPtr<Tracked>) -> i64;
        fn salias_tracked(p: &SharedPtr<Tracked>) -> SharedPtr<Tracked>;
        fn hold_tracked(p: &SharedPtr<Tracked>);
        fn held_tracked() -> SharedPtr<Tracked>;
        fn wmake_tracked(p: SharedPtr<Tracked>) -> WeakPtr<Tracked>;
        fn wecho_tracked(p: WeakPtr<Tracked>) -> WeakPtr<Tracked>;
        fn wlook_tracked(p: &WeakPtr<Tracked>) -> Look;
        fn smake_trackeda(k: i32) -> SharedPtr<TrackedA>;
        fn stake_trackeda(p: SharedPtr<TrackedA>) -> i32;
        fn secho_trackeda(p: SharedPtr<TrackedA>) -> SharedPtr<TrackedA>;
        fn sreset_trackeda(p: &mut SharedPtr<TrackedA>, k: i32);
        fn slook_trackeda(p: &SharedPtr<TrackedA>) -> Look;
        fn suse_trackeda(p: &SharedPtr<TrackedA>) -> i64;
        fn salias_trackeda(p: &SharedPtr<TrackedA>) -> SharedPtr<TrackedA>;
        fn hold_trackeda(p: &SharedPtr<TrackedA>);
        fn held_trackeda() -> SharedPtr<TrackedA>;
        fn wmake_trackeda(p: SharedPtr<TrackedA>) -> WeakPtr<TrackedA>;
        fn wecho_trackeda(p: WeakPtr<TrackedA>) -> WeakPtr<TrackedA>;
        fn wlook_trackeda(p: &WeakPtr<TrackedA>) -> Look;
        fn smake_string(k: i32) -> SharedPtr<CxxString>;
        fn stake_string(p: SharedPtr<CxxString>) -> i32;
        fn secho_string(p: SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn sreset_string(p: &mut SharedPtr<CxxString>, k: i32);
        fn slook_string(p: &SharedPtr<CxxString>) -> Look;
        fn suse_string(p: &SharedPtr<CxxString>) -> i64;
        fn salias_string(p: &SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn hold_string(p: &SharedPtr<CxxString>);
        fn held_string() -> SharedPtr<CxxString>;
        fn wmake_string(p: SharedPtr<CxxString>) -> WeakPtr<CxxString>;
        fn wecho_string(p: WeakPtr<CxxString>) -> WeakPtr<CxxString>;
        fn wlook_string(p: &WeakPtr<CxxString>) -> Look;
        fn smake_bool(k: i32) -> SharedPtr<bool>;
        fn stake_bool(p: SharedPtr<bool>) -> i32;
        fn secho_bool(p: SharedPtr<bool>) -> SharedPtr<bool>;
        fn sreset_bool(p: &mut SharedPtr<bool>, k: i32);
        fn slook_bool(p: &SharedPtr<bool>) -> Look;
        fn suse_bool(p: &SharedPtr<bool>) -> i64;
        fn salias_bool(p: &SharedPtr<bool>) -> SharedPtr<bool>;
        fn hold_bool(p: &SharedPtr<bool>);
        fn held_bool() -> SharedPtr<bool>;
        fn wmake_bool(p: SharedPtr<bool>) -> WeakPtr<bool>;
        fn wecho_bool(p: WeakPtr<bool>) -> WeakPtr<bool>;
        fn wlook_bool(p: &WeakPtr<bool>) -> Look;
        fn smake_u8(k: i32) -> SharedPtr<u8>;
        fn stake_u8(p: SharedPtr<u8>) -> i32;
        fn secho_u8(p: SharedPtr<u8>) -> SharedPtr<u8>;
        fn sreset_u8(p: &mut SharedPtr<u8>, k: i32);
        fn slook_u8(p: &SharedPtr<u8>) -> Look;
        fn suse_u8(p: &SharedPtr<u8>) -> i64;
        fn salias_u8(p: &SharedPtr<u8>) -> SharedPtr<u8>;
        fn hold_u8(p: &SharedPtr<u8>);
        fn held_u8() -> SharedPtr<u8>;
        fn wmake_u8(p: SharedPtr<u8>) -> WeakPtr<u8>;
        fn wecho_u8(p: WeakPtr<u8>) -> WeakPtr<u8>;
        fn wlook_u8(p: &WeakPtr<u8>) -> Look;
        fn smake_u16(k: i32) -> SharedPtr<u16>;
        fn stake_u16(p: SharedPtr<u16>) -> i32;
        fn secho_u16(p: SharedPtr<u16>) -> SharedPtr<u16>;
        fn sreset_u16(p: &mut SharedPtr<u16>, k: i32);
        fn slook_u16(p: &SharedPtr<u16>) -> Look;
        fn suse_u16(p: &SharedPtr<u16>) -> i64;
        fn salias_u16(p: &SharedPtr<u16>) -> SharedPtr<u16>;
        fn hold_u16(p: &SharedPtr<u16>);
        fn held_u16() -> SharedPtr<u16>;
        fn wmake_u16(p: SharedPtr<u16>) -> WeakPtr<u16>;
        fn wecho_u16(p: WeakPtr<u16>) -> WeakPtr<u16>;
        fn wlook_u16(p: &WeakPtr<u16>) -> Look;
        fn smake_u32(k: i32) -> SharedPtr<u32>;
        fn stake_u32(p: SharedPtr<u32>) -> i32;
        fn secho_u32(p: SharedPtr<u32>) -> SharedPtr<u32>;
        fn sreset_u32(p: &mut SharedPtr<u32>, k: i32);
        fn slook_u32(p: &SharedPtr<u32>) -> Look;
        fn suse_u32(p: &SharedPtr<u32>) -> i64;
        fn salias_u32(p: &SharedPtr<u32>) -> SharedPtr<u32>;
        fn hold_u32(p: &SharedPtr<u32>);
        fn held_u32() -> SharedPtr<u32>;
        fn wmake_u32(p: SharedPtr<u32>) -> WeakPtr<u32>;
        fn wecho_u32(p: WeakPtr<u32>) -> WeakPtr<u32>;
        fn wlook_u32(p: &WeakPtr<u32>) -> Look;
        fn smake_u64(k: i32) -> SharedPtr<u64>;
        fn stake_u64(p: SharedPtr<u64>) -> i32;
        fn secho_u64(p: SharedPtr<u64>) -> SharedPtr<u64>;
        fn sreset_u64(p: &mut SharedPtr<u64>, k: i32);
        fn slook_u64(p: &SharedPtr<u64>) -> Look;
        fn suse_u64(p: &SharedPtr<u64>) -> i64;
        fn salias_u64(p: &SharedPtr<u64>) -> SharedPtr<u64>;
        fn hold_u64(p: &SharedPtr<u64>);
        fn held_u64() -> SharedPtr<u64>;
        fn wmake_u64(p: SharedPtr<u64>) -> WeakPtr<u64>;
        fn wecho_u64(p: WeakPtr<u64>) -> WeakPtr<u64>;
        fn wlook_u64(p: &WeakPtr<u64>) -> Look;
        fn smake_usize(k: i32) -> SharedPtr<usize>;
        fn stake_usize(p: SharedPtr<usize>) -> i32;
        fn secho_usize(p: SharedPtr<usize>) -> SharedPtr<usize>;
        fn sreset_usize(p: &mut SharedPtr<usize>, k: i32);
        fn slook_usize(p: &SharedPtr<usize>) -> Look;
        fn suse_usize(p: &SharedPtr<usize>) -> i64;
        fn salias_usize(p: &SharedPtr<usize>) -> SharedPtr<usize>;
        fn hold_usize(p: &SharedPtr<usize>);
        fn held_usize() -> SharedPtr<usize>;
        fn wmake_usize(p: SharedPtr<usize>) -> WeakPtr<usize>;
        fn wecho_usize(p: WeakPtr<usize>) -> WeakPtr<usize>;
        fn wlook_usize(p: &WeakPtr<usize>) -> Look;
        fn smake_i8(k: i32) -> SharedPtr<i8>;
        fn stake_i8(p: SharedPtr<i8>) -> i32;
        fn secho_i8(p: SharedPtr<i8>) -> SharedPtr<i8>;
        fn sreset_i8(p: &mut SharedPtr<i8>, k: i32);
        fn slook_i8(p: &SharedPtr<i8>) -> Look;
        fn suse_i8(p: &SharedPtr<i8>) -> i64;
        fn salias_i8(p: &SharedPtr<i8>) -> SharedPtr<i8>;
        fn hold_i8(p: &SharedPtr<i8>);
        fn held_i8() -> SharedPtr<i8>;
        fn wmake_i8(p: SharedPtr<i8>) -> WeakPtr<i8>;
        fn wecho_i8(p: WeakPtr<i8>) -> WeakPtr<i8>;
        fn wlook_i8(p: &WeakPtr<i8>) -> Look;
        fn smake_i16(k: i32) -> SharedPtr<i16>;
        fn stake_i16(p: SharedPtr<i16>) -> i32;
        fn secho_i16(p: SharedPtr<i16>) -> SharedPtr<i16>;
        fn sreset_i16(p: &mut SharedPtr<i16>, k: i32);
        fn slook_i16(p: &SharedPtr<i16>) -> Look;
        fn suse_i16(p: &SharedPtr<i16>) -> i64;
        fn salias_i16(p: &SharedPtr<i16>) -> SharedPtr<i16>;
        fn hold_i16(p: &SharedPtr<i16>);
        fn held_i16() -> SharedPtr<i16>;
        fn wmake_i16(p: SharedPtr<i16>) -> WeakPtr<i16>;
        fn wecho_i16(p: WeakPtr<i16>) -> WeakPtr<i16>;
        fn wlook_i16(p: &WeakPtr<i16>) -> Look;
        fn smake_i32(k: i32) -> SharedPtr<i32>;
        fn stake_i32(p: SharedPtr<i32>) -> i32;
        fn secho_i32(p: SharedPtr<i32>) -> SharedPtr<i32>;
        fn sreset_i32(p: &mut SharedPtr<i32>, k: i32);
        fn slook_i32(p: &SharedPtr<i32>) -> Look;
        fn suse_i32(p: &SharedPtr<i32>) -> i64;
        fn salias_i32(p: &SharedPtr<i32>) -> SharedPtr<i32>;
        fn hold_i32(p: &SharedPtr<i32>);
        fn held_i32() -> SharedPtr<i32>;
        fn wmake_i32(p: SharedPtr<i32>) -> WeakPtr<i32>;
        fn wecho_i32(p: WeakPtr<i32>) -> WeakPtr<i32>;
        fn wlook_i32(p: &WeakPtr<i32>) -> Look;
        fn smake_i64(k: i32) -> SharedPtr<i64>;
        fn stake_i64(p: SharedPtr<i64>) -> i32;
        fn secho_i64(p: SharedPtr<i64>) -> SharedPtr<i64>;
        fn sreset_i64(p: &mut SharedPtr<i64>, k: i32);
        fn slook_i64(p: &SharedPtr<i64>) -> Look;
        fn suse_i64(p: &SharedPtr<i64>) -> i64;
        fn salias_i64(p: &SharedPtr<i64>) -> SharedPtr<i64>;
        fn hold_i64(p: &SharedPtr<i64>);
        fn held_i64() -> SharedPtr<i64>;
        fn wmake_i64(p: SharedPtr<i64>) -> WeakPtr<i64>;
        fn wecho_i64(p: WeakPtr<i64>) -> WeakPtr<i64>;
        fn wlook_i64(p: &WeakPtr<i64>) -> Look;
        fn smake_isize(k: i32) -> SharedPtr<isize>;
        fn stake_isize(p: SharedPtr<isize>) -> i32;
        fn secho_isize(p: SharedPtr<isize>) -> SharedPtr<isize>;
        fn sreset_isize(p: &mut SharedPtr<isize>, k: i32);
        fn slook_isize(p: &SharedPtr<isize>) -> Look;
        fn suse_isize(p: &SharedPtr<isize>) -> i64;
        fn salias_isize(p: &SharedPtr<isize>) -> SharedPtr<isize>;
        fn hold_isize(p: &SharedPtr<isize>);
        fn held_isize() -> SharedPtr<isize>;
        fn wmake_isize(p: SharedPtr<isize>) -> WeakPtr<isize>;
        fn wecho_isize(p: WeakPtr<isize>) -> WeakPtr<isize>;
        fn wlook_isize(p: &WeakPtr<isize>) -> Look;
        fn smake_f32(k: i32) -> SharedPtr<f32>;
        fn stake_f32(p: SharedPtr<f32>) -> i32;
        fn secho_f32(p: SharedPtr<f32>) -> SharedPtr<f32>;
        fn sreset_f32(p: &mut SharedPtr<f32>, k: i32);
        fn slook_f32(p: &SharedPtr<f32>) -> Look;
        fn suse_f32(p: &SharedPtr<f32>) -> i64;
        fn salias_f32(p: &SharedPtr<f32>) -> SharedPtr<f32>;
        fn hold_f32(p: &SharedPtr<f32>);
        fn held_f32() -> SharedPtr<f32>;
        fn wmake_f32(p: SharedPtr<f32>) -> WeakPtr<f32>;
        fn wecho_f32(p: WeakPtr<f32>) -> WeakPtr<f32>;
        fn wlook_f32(p: &WeakPtr<f32>) -> Look;
        fn smake_f64(k: i32) -> SharedPtr<f64>;
        fn stake_f64(p: SharedPtr<f64>) -> i32;
        fn secho_f64(p: SharedPtr<f64>) -> SharedPtr<f64>;
        fn sreset_f64(p: &mut SharedPtr<f64>, k: i32);
        fn slook_f64(p: &SharedPtr<f64>) -> Look;
        fn suse_f64(p: &SharedPtr<f64>) -> i64;
        fn salias_f64(p: &SharedPtr<f64>) -> SharedPtr<f64>;
        fn hold_f64(p: &SharedPtr<f64>);
        fn held_f64() -> SharedPtr<f64>;
        fn wmake_f64(p: SharedPtr<f64>) -> WeakPtr<f64>;
        fn wecho_f64(p: WeakPtr<f64>) -> WeakPtr<f64>;
        fn wlook_f64(p: &WeakPtr<f64>) -> Look;
    }
    impl UniquePtr<Tracked> {}
    impl SharedPtr<Tracked> {}
    impl WeakPtr<Tracked> {}
    impl UniquePtr<TrackedA> {}
    impl SharedPtr<TrackedA> {}
    impl WeakPtr<TrackedA> {}
}
use ffi::{En, Look, Obj, P3, Poly, Sh};
type R<T = ()> = Result<T, String>;
const TEXTS: [&str; 4] = ["", "one", "a text longer than any small string buffer", "\u{1f980}"];
#[repr(C)]
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tracked {
    val: i32,
    pad: i32,
    id: u64,
}
#[repr(C, align(32))]
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TrackedA {
    t: Tracked,
}
unsafe impl cxx::ExternType for Tracked {
    type Id = cxx::type_id!("c08::Tracked");
    type Kind = cxx::kind::Trivial;
}
unsafe impl cxx::ExternType for TrackedA {
    type Id = cxx::type_id!("c08::TrackedA");
    type Kind = cxx::kind::Trivial;
}
unsafe extern "C" {
    fn vk8_drop(id: u64);
}
impl Drop for Tracked {
    fn drop(&mut self) {
        unsafe { vk8_drop(self.id) }
    }
}
macro_rules! by_val {
    ($($t:ident)*) => {$(
        impl Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "<{}>", self.val()) } }
    )*};
}
by_val!(Obj Poly Tracked TrackedA);
macro_rules! opaque_cmp {
    ($($t:ident)*) => {$(
        impl Debug for $t { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}({})", stringify!($t), self.val()) } }
        impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.val() == o.val() } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.val().cmp(&o.val()) } }
        impl Hash for $t { fn hash<H: Hasher>(&self, h: &mut H) { self.val().hash(h) } }
    )*};
}
opaque_cmp!(Obj Poly);
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// What the value kinds have in common.  Values are numbered 0..4.
trait Val: Sized + 'static {
    const NVAL: i32 = 4;
    const LEDGER: bool = false;
    fn val(&self) -> i32;
    fn set(self: Pin<&mut Self>, k: i32);
    const TRIVIAL: bool = false;
    const TYPENAME: &'static str;
}
trait U: Val + cxx::memory::UniquePtrTarget {
    fn umake(k: i32) -> UniquePtr<Self>;
    fn utake(p: UniquePtr<Self>) -> i32;
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self>;
    fn ureset(p: &mut UniquePtr<Self>, k: i32);
    fn ulook(p: &UniquePtr<Self>) -> Look;
    fn unew(_k: i32) -> UniquePtr<Self> { unreachable!() }
    fn deref_mut_set(_p: &mut UniquePtr<Self>, _k: i32) -> bool { false }
    fn ucmp(_a: &UniquePtr<Self>, _b: &UniquePtr<Self>) -> R { Ok(()) }
    fn ufmt(_a: &UniquePtr<Self>) -> R { Ok(()) }
}
trait S: Val + cxx::memory::SharedPtrTarget + cxx::memory::WeakPtrTarget {
    fn smake(k: i32) -> SharedPtr<Self>;
    fn stake(p: SharedPtr<Self>) -> i32;
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self>;
    fn sreset(p: &mut SharedPtr<Self>, k: i32);
    fn slook(p: &SharedPtr<Self>) -> Look;
    fn suse(p: &SharedPtr<Self>) -> i64;
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self>;
    fn hold(p: &SharedPtr<Self>);
    fn held() -> SharedPtr<Self>;
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self>;
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self>;
    fn wlook(p: &WeakPtr<Self>) -> Look;
    fn snew(_k: i32) -> SharedPtr<Self> { unreachable!() }
    fn scmp(_a: &SharedPtr<Self>, _b: &SharedPtr<Self>) -> R { Ok(()) }
    fn sfmt(_a: &SharedPtr<Self>, _w: &WeakPtr<Self>) -> R { Ok(()) }
}
macro_rules! cmp_body {
    ($a:ident $b:ident) => {{
        let (x, y) = ($a.as_ref(), $b.as_ref());
        ensure!(($a == $b) == (x == y) && ($a != $b) == (x != y));
        ensure!($a.partial_cmp($b) == x.partial_cmp(&y));
        ensure!(($a < $b) == (x < y) && ($a <= $b) == (x <= y) && ($a > $b) == (x > y) && ($a >= $b) == (x >= y));
        Ok(())
    }};
}
macro_rules! ord_body {
    ($a:ident $b:ident) => {{
        let (x, y) = ($a.as_ref(), $b.as_ref());
        ensure!($a.cmp($b) == x.cmp(&y));
        ensure!(hash($a) == hash(&x) && ($a != $b || hash($a) == hash($b)));
    }};
}
macro_rules! fmt_body {
    ($a:ident $f:literal) => {
        match $a.as_ref() {
            None => ensure!(format!($f, $a) == "nullptr"),
            Some(x) => ensure!(format!($f, $a) == format!($f, x)),
        }
    };
}

impl Val for Obj {
    fn val(&self) -> i32 { self.oval() }
    fn set(self: Pin<&mut Self>, k: i32) { self.oset(k); }
    const LEDGER: bool = true;
    const TRIVIAL: bool = false;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "Obj";
}
impl Val for Poly {
    fn val(&self) -> i32 { self.pval() }
    fn set(self: Pin<&mut Self>, k: i32) { self.pset(k); }
    const LEDGER: bool = true;
    const TRIVIAL: bool = false;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "Poly";
}
impl Val for Sh {
    fn val(&self) -> i32 { if TEXTS.get(self.n as usize) == Some(&&*self.s) { self.n } else { -1 } }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = Sh { n: k, s: TEXTS[k as usize].to_owned() }; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "Sh";
}
impl Val for P3 {
    fn val(&self) -> i32 { if self.a == self.b && self.b == self.c { self.a as i32 } else { -1 } }
    fn set(self: Pin<&mut Self>, k: i32) { { let k = k as u8; *self.get_mut() = P3 { a: k, b: k, c: k } }; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "P3";
}
impl Val for En {
    fn val(&self) -> i32 { [En::A, En::B, En::C, En::D].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [En::A, En::B, En::C, En::D][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "En";
}
impl Val for Tracked {
    fn val(&self) -> i32 { self.val }
    fn set(self: Pin<&mut Self>, k: i32) { self.get_mut().val = k; }
    const LEDGER: bool = true;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "Tracked";
}
impl Val for TrackedA {
    fn val(&self) -> i32 { if self as *const _ as usize % 32 == 0 { self.t.val } else { -1 } }
    fn set(self: Pin<&mut Self>, k: i32) { self.get_mut().t.val = k; }
    const LEDGER: bool = true;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "TrackedA";
}
impl Val for CxxString {
    fn val(&self) -> i32 { TEXTS.iter().position(|x| x.as_bytes() == self.as_bytes()).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { ffi::string_set(self, k); }
    const LEDGER: bool = false;
    const TRIVIAL: bool = false;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "CxxString";
}
impl Val for CxxVector<i32> {
    fn val(&self) -> i32 { if self.len() == 2 { self.get(1).map_or(-1, |x| *x) } else { -1 } }
    fn set(self: Pin<&mut Self>, k: i32) { *self.index_mut(1).unwrap() = k; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = false;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "CxxVector<i32>";
}
impl Val for CxxVector<CxxString> {
    fn val(&self) -> i32 { if self.len() == 2 { self.get(1).map_or(-1, |x| x.val()) } else { -1 } }
    fn set(self: Pin<&mut Self>, k: i32) { ffi::vstring_set(self, k); }
    const LEDGER: bool = false;
    const TRIVIAL: bool = false;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "CxxVector<CxxString>";
}
impl Val for CxxVector<Sh> {
    fn val(&self) -> i32 { if self.len() == 2 { self.get(1).map_or(-1, |x| x.val()) } else { -1 } }
    fn set(self: Pin<&mut Self>, k: i32) { self.index_mut(1).unwrap().set(k); }
    const LEDGER: bool = false;
    const TRIVIAL: bool = false;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "CxxVector<Sh>";
}
impl Val for CxxVector<Obj> {
    fn val(&self) -> i32 { ffi::vobj_val(self) }
    fn set(self: Pin<&mut Self>, k: i32) { ffi::vobj_set(self, k); }
    const LEDGER: bool = true;
    const TRIVIAL: bool = false;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "CxxVector<Obj>";
}
impl Val for bool {
    fn val(&self) -> i32 { [false, true, false, true].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [false, true, false, true][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 2;
    const TYPENAME: &'static str = "bool";
}
impl Val for u8 {
    fn val(&self) -> i32 { [0 as u8, 1 as u8, u8::MAX, u8::MAX - 1].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as u8, 1 as u8, u8::MAX, u8::MAX - 1][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "u8";
}
impl Val for u16 {
    fn val(&self) -> i32 { [0 as u16, 1 as u16, u16::MAX, u16::MAX - 1].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as u16, 1 as u16, u16::MAX, u16::MAX - 1][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "u16";
}
impl Val for u32 {
    fn val(&self) -> i32 { [0 as u32, 1 as u32, u32::MAX, u32::MAX - 1].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as u32, 1 as u32, u32::MAX, u32::MAX - 1][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "u32";
}
impl Val for u64 {
    fn val(&self) -> i32 { [0 as u64, 1 as u64, u64::MAX, u64::MAX - 1].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as u64, 1 as u64, u64::MAX, u64::MAX - 1][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "u64";
}
impl Val for usize {
    fn val(&self) -> i32 { [0 as usize, 1 as usize, usize::MAX, usize::MAX - 1].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as usize, 1 as usize, usize::MAX, usize::MAX - 1][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "usize";
}
impl Val for i8 {
    fn val(&self) -> i32 { [0 as i8, 1 as i8, i8::MAX, i8::MIN].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as i8, 1 as i8, i8::MAX, i8::MIN][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "i8";
}
impl Val for i16 {
    fn val(&self) -> i32 { [0 as i16, 1 as i16, i16::MAX, i16::MIN].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as i16, 1 as i16, i16::MAX, i16::MIN][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "i16";
}
impl Val for i32 {
    fn val(&self) -> i32 { [0 as i32, 1 as i32, i32::MAX, i32::MIN].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as i32, 1 as i32, i32::MAX, i32::MIN][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "i32";
}
impl Val for i64 {
    fn val(&self) -> i32 { [0 as i64, 1 as i64, i64::MAX, i64::MIN].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as i64, 1 as i64, i64::MAX, i64::MIN][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "i64";
}
impl Val for isize {
    fn val(&self) -> i32 { [0 as isize, 1 as isize, isize::MAX, isize::MIN].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as isize, 1 as isize, isize::MAX, isize::MIN][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "isize";
}
impl Val for f32 {
    fn val(&self) -> i32 { [0 as f32, 1 as f32, f32::MAX, -1.5].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as f32, 1 as f32, f32::MAX, -1.5][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "f32";
}
impl Val for f64 {
    fn val(&self) -> i32 { [0 as f64, 1 as f64, f64::MAX, -1.5].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as f64, 1 as f64, f64::MAX, -1.5][k as usize]; }
    const LEDGER: bool = false;
    const TRIVIAL: bool = true;
    const NVAL: i32 = 4;
    const TYPENAME: &'static str = "f64";
}
impl U for Obj {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_obj(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_obj(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_obj(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_obj(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_obj(p) }
    fn ucmp(a: &UniquePtr<Self>, b: &UniquePtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl U for Poly {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_poly(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_poly(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_poly(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_poly(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_poly(p) }
    fn ucmp(a: &UniquePtr<Self>, b: &UniquePtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl U for Sh {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_sh(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_sh(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_sh(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_sh(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_sh(p) }
    fn unew(k: i32) -> UniquePtr<Self> { UniquePtr::new(Sh { n: k, s: TEXTS[k as usize].to_owned() }) }
    fn deref_mut_set(p: &mut UniquePtr<Self>, k: i32) -> bool { Pin::new(&mut **p).set(k); true }
    fn ucmp(a: &UniquePtr<Self>, b: &UniquePtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); Ok(()) }
}
impl U for P3 {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_p3(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_p3(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_p3(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_p3(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_p3(p) }
    fn unew(k: i32) -> UniquePtr<Self> { UniquePtr::new(P3 { a: k as u8, b: k as u8, c: k as u8 }) }
    fn deref_mut_set(p: &mut UniquePtr<Self>, k: i32) -> bool { Pin::new(&mut **p).set(k); true }
    fn ucmp(a: &UniquePtr<Self>, b: &UniquePtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); Ok(()) }
}
impl U for En {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_en(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_en(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_en(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_en(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_en(p) }
    fn unew(k: i32) -> UniquePtr<Self> { UniquePtr::new([En::A, En::B, En::C, En::D][k as usize]) }
    fn deref_mut_set(p: &mut UniquePtr<Self>, k: i32) -> bool { Pin::new(&mut **p).set(k); true }
    fn ucmp(a: &UniquePtr<Self>, b: &UniquePtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); Ok(()) }
}
impl U for Tracked {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_tracked(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_tracked(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_tracked(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_tracked(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_tracked(p) }
    fn unew(k: i32) -> UniquePtr<Self> { UniquePtr::new(ffi::tracked_mk(k)) }
    fn deref_mut_set(p: &mut UniquePtr<Self>, k: i32) -> bool { Pin::new(&mut **p).set(k); true }
    fn ucmp(a: &UniquePtr<Self>, b: &UniquePtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl U for TrackedA {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_trackeda(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_trackeda(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_trackeda(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_trackeda(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_trackeda(p) }
    fn unew(k: i32) -> UniquePtr<Self> { UniquePtr::new(TrackedA { t: ffi::tracked_mk(k) }) }
    fn deref_mut_set(p: &mut UniquePtr<Self>, k: i32) -> bool { Pin::new(&mut **p).set(k); true }
    fn ucmp(a: &UniquePtr<Self>, b: &UniquePtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl U for CxxString {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_string(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_string(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_string(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_string(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_string(p) }
    fn ucmp(a: &UniquePtr<Self>, b: &UniquePtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl U for CxxVector<i32> {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_vi32(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_vi32(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_vi32(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_vi32(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_vi32(p) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); Ok(()) }
}
impl U for CxxVector<CxxString> {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_vstring(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_vstring(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_vstring(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_vstring(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_vstring(p) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); Ok(()) }
}
impl U for CxxVector<Sh> {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_vsh(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_vsh(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_vsh(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_vsh(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_vsh(p) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); Ok(()) }
}
impl U for CxxVector<Obj> {
    fn umake(k: i32) -> UniquePtr<Self> { ffi::umake_vobj(k) }
    fn utake(p: UniquePtr<Self>) -> i32 { ffi::utake_vobj(p) }
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> { ffi::uecho_vobj(p) }
    fn ureset(p: &mut UniquePtr<Self>, k: i32) { ffi::ureset_vobj(p, k) }
    fn ulook(p: &UniquePtr<Self>) -> Look { ffi::ulook_vobj(p) }
    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); Ok(()) }
}
impl S for Obj {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_obj(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_obj(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_obj(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_obj(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_obj(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_obj(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_obj(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_obj(p) }
    fn held() -> SharedPtr<Self> { ffi::held_obj() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_obj(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_obj(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_obj(p) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for Poly {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_poly(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_poly(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_poly(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_poly(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_poly(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_poly(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_poly(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_poly(p) }
    fn held() -> SharedPtr<Self> { ffi::held_poly() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_poly(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_poly(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_poly(p) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for Sh {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_sh(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_sh(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_sh(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_sh(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_sh(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_sh(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_sh(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_sh(p) }
    fn held() -> SharedPtr<Self> { ffi::held_sh() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_sh(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_sh(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_sh(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new(Sh { n: k, s: TEXTS[k as usize].to_owned() }) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); Ok(()) }
}
impl S for P3 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_p3(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_p3(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_p3(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_p3(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_p3(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_p3(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_p3(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_p3(p) }
    fn held() -> SharedPtr<Self> { ffi::held_p3() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_p3(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_p3(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_p3(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new(P3 { a: k as u8, b: k as u8, c: k as u8 }) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); Ok(()) }
}
impl S for En {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_en(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_en(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_en(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_en(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_en(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_en(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_en(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_en(p) }
    fn held() -> SharedPtr<Self> { ffi::held_en() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_en(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_en(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_en(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([En::A, En::B, En::C, En::D][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); Ok(()) }
}
impl S for Tracked {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_tracked(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_tracked(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_tracked(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_tracked(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_tracked(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_tracked(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_tracked(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_tracked(p) }
    fn held() -> SharedPtr<Self> { ffi::held_tracked() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_tracked(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_tracked(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_tracked(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new(ffi::tracked_mk(k)) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for TrackedA {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_trackeda(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_trackeda(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_trackeda(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_trackeda(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_trackeda(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_trackeda(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_trackeda(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_trackeda(p) }
    fn held() -> SharedPtr<Self> { ffi::held_trackeda() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_trackeda(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_trackeda(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_trackeda(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new(TrackedA { t: ffi::tracked_mk(k) }) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for CxxString {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_string(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_string(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_string(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_string(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_string(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_string(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_string(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_string(p) }
    fn held() -> SharedPtr<Self> { ffi::held_string() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_string(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_string(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_string(p) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for bool {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_bool(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_bool(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_bool(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_bool(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_bool(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_bool(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_bool(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_bool(p) }
    fn held() -> SharedPtr<Self> { ffi::held_bool() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_bool(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_bool(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_bool(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([false, true, false, true][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for u8 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_u8(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_u8(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_u8(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_u8(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_u8(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_u8(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_u8(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_u8(p) }
    fn held() -> SharedPtr<Self> { ffi::held_u8() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_u8(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_u8(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_u8(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as u8, 1 as u8, u8::MAX, u8::MAX - 1][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for u16 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_u16(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_u16(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_u16(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_u16(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_u16(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_u16(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_u16(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_u16(p) }
    fn held() -> SharedPtr<Self> { ffi::held_u16() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_u16(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_u16(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_u16(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as u16, 1 as u16, u16::MAX, u16::MAX - 1][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for u32 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_u32(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_u32(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_u32(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_u32(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_u32(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_u32(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_u32(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_u32(p) }
    fn held() -> SharedPtr<Self> { ffi::held_u32() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_u32(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_u32(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_u32(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as u32, 1 as u32, u32::MAX, u32::MAX - 1][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for u64 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_u64(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_u64(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_u64(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_u64(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_u64(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_u64(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_u64(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_u64(p) }
    fn held() -> SharedPtr<Self> { ffi::held_u64() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_u64(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_u64(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_u64(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as u64, 1 as u64, u64::MAX, u64::MAX - 1][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for usize {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_usize(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_usize(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_usize(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_usize(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_usize(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_usize(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_usize(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_usize(p) }
    fn held() -> SharedPtr<Self> { ffi::held_usize() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_usize(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_usize(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_usize(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as usize, 1 as usize, usize::MAX, usize::MAX - 1][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for i8 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_i8(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_i8(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_i8(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_i8(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_i8(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_i8(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_i8(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_i8(p) }
    fn held() -> SharedPtr<Self> { ffi::held_i8() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_i8(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_i8(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_i8(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as i8, 1 as i8, i8::MAX, i8::MIN][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for i16 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_i16(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_i16(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_i16(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_i16(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_i16(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_i16(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_i16(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_i16(p) }
    fn held() -> SharedPtr<Self> { ffi::held_i16() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_i16(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_i16(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_i16(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as i16, 1 as i16, i16::MAX, i16::MIN][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for i32 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_i32(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_i32(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_i32(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_i32(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_i32(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_i32(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_i32(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_i32(p) }
    fn held() -> SharedPtr<Self> { ffi::held_i32() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_i32(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_i32(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_i32(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as i32, 1 as i32, i32::MAX, i32::MIN][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for i64 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_i64(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_i64(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_i64(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_i64(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_i64(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_i64(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_i64(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_i64(p) }
    fn held() -> SharedPtr<Self> { ffi::held_i64() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_i64(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_i64(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_i64(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as i64, 1 as i64, i64::MAX, i64::MIN][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for isize {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_isize(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_isize(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_isize(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_isize(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_isize(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_isize(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_isize(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_isize(p) }
    fn held() -> SharedPtr<Self> { ffi::held_isize() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_isize(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_isize(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_isize(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as isize, 1 as isize, isize::MAX, isize::MIN][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for f32 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_f32(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_f32(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_f32(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_f32(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_f32(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_f32(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_f32(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_f32(p) }
    fn held() -> SharedPtr<Self> { ffi::held_f32() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_f32(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_f32(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_f32(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as f32, 1 as f32, f32::MAX, -1.5][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}
impl S for f64 {
    fn smake(k: i32) -> SharedPtr<Self> { ffi::smake_f64(k) }
    fn stake(p: SharedPtr<Self>) -> i32 { ffi::stake_f64(p) }
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> { ffi::secho_f64(p) }
    fn sreset(p: &mut SharedPtr<Self>, k: i32) { ffi::sreset_f64(p, k) }
    fn slook(p: &SharedPtr<Self>) -> Look { ffi::slook_f64(p) }
    fn suse(p: &SharedPtr<Self>) -> i64 { ffi::suse_f64(p) }
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> { ffi::salias_f64(p) }
    fn hold(p: &SharedPtr<Self>) { ffi::hold_f64(p) }
    fn held() -> SharedPtr<Self> { ffi::held_f64() }
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> { ffi::wmake_f64(p) }
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { ffi::wecho_f64(p) }
    fn wlook(p: &WeakPtr<Self>) -> Look { ffi::wlook_f64(p) }
    fn snew(k: i32) -> SharedPtr<Self> { SharedPtr::new([0 as f64, 1 as f64, f64::MAX, -1.5][k as usize]) }
    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R { cmp_body!(a b) }
    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}"); fmt_body!(a "{}"); Ok(()) }
}

fn message<Q>(f: impl FnOnce() -> Q) -> Option<String> {
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).err()?;
    Some(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}
// ---------------------------------------------------------------- UniquePtr
#[derive(Clone, Copy, Debug)]
enum UOp {
    Null(usize),
    New(usize, i32),
    CMake(usize, i32),
    CMakeNull(usize),
    CTake(usize),
    CEcho(usize),
    CReset(usize, i32),
    CResetNull(usize),
    PinSet(usize, i32),
    AsMutSet(usize, i32),
    PtrSet(usize, i32),
    DerefMutSet(usize, i32),
    Drop(usize),
    IntoRaw(usize),
    FromRaw(usize),
    FromRawNull(usize),
    Move(usize),
    Through(usize),
    Swap,
}
fn uops() -> Vec<UOp> {
    use UOp::*;
    let mut v = vec![Swap];
    for i in 0..2 {
        v.extend([
            Null(i), New(i, 1), New(i, 2), CMake(i, 0), CMake(i, 2), CMakeNull(i), CTake(i), CEcho(i), CReset(i, 3), CResetNull(i),
            PinSet(i, 1), AsMutSet(i, 2), PtrSet(i, 3), DerefMutSet(i, 0), Drop(i), IntoRaw(i), FromRaw(i), FromRawNull(i), Move(i), Through(i),
        ]);
    }
    v
}
fn uhistory<T: U>(all: &[UOp], t: &[u16], key: &mut Vec<u8>) -> R<bool> {
    use UOp::*;
    let live0 = ffi::live();
    let unit = if T::TYPENAME == "CxxVector<Obj>" { 2 } else { 1 };
    let mut news0 = ffi::own_news();
    {
        let mut p: [UniquePtr<T>; 2] = [UniquePtr::null(), UniquePtr::null()];
        let mut m: [Option<i32>; 2] = [None, None];
        let mut at: [*const T; 2] = [std::ptr::null(); 2];
        struct Raw<T: U>(Option<(*mut T, Option<i32>)>);
        impl<T: U> std::ops::Drop for Raw<T> {
            fn drop(&mut self) {
                if let Some((q, _)) = self.0.take() {
                    drop(unsafe { UniquePtr::from_raw(q) });
                }
            }
        }
        let mut rawg = Raw::<T>(None);
        let raw = &mut rawg.0;
        let c = |k: i32| k % T::NVAL;
        for o in t {
            match all[*o as usize] {
                Null(i) => {
                    p[i] = UniquePtr::null();
                    m[i] = None;
                }
                New(i, k) => {
                    if !T::TRIVIAL {
                        return Ok(false);
                    }
                    p[i] = T::unew(c(k));
                    m[i] = Some(c(k));
                    at[i] = p[i].as_ptr();
                }
                CMake(i, k) => {
                    p[i] = T::umake(c(k));
                    m[i] = Some(c(k));
                    at[i] = p[i].as_ptr();
                }
                CMakeNull(i) => {
                    p[i] = T::umake(-1);
                    m[i] = None;
                }
                CTake(i) => {
                    let q = std::mem::replace(&mut p[i], UniquePtr::null());
                    ensure!(T::utake(q) == m[i].unwrap_or(-9));
                    m[i] = None;
                }
                CEcho(i) => {
                    let q = std::mem::replace(&mut p[i], UniquePtr::null());
                    p[i] = T::uecho(q);
                }
                CReset(i, k) => {
                    T::ureset(&mut p[i], c(k));
                    m[i] = Some(c(k));
                    at[i] = p[i].as_ptr();
                }
                CResetNull(i) => {
                    T::ureset(&mut p[i], -1);
                    m[i] = None;
                }
                PinSet(i, k) => match m[i] {
                    None => {
                        let e = message(|| p[i].pin_mut().set(c(k)));
                        ensure!(e == Some(format!("called pin_mut on a null UniquePtr<{}>", T::TYPENAME)), "{:?}", e);
                    }
                    Some(_) => {
                        p[i].pin_mut().set(c(k));
                        m[i] = Some(c(k));
                    }
                },
                AsMutSet(i, k) => match p[i].as_mut() {
                    None => ensure!(m[i].is_none()),
                    Some(x) => {
                        ensure!(m[i].is_some());
                        x.set(c(k));
                        m[i] = Some(c(k));
                    }
                },
                PtrSet(i, k) => {
                    if m[i].is_none() {
                        return Ok(false);
                    }
                    unsafe { Pin::new_unchecked(&mut *p[i].as_mut_ptr()) }.set(c(k));
                    m[i] = Some(c(k));
                }
                DerefMutSet(i, k) => {
                    if !T::TRIVIAL {
                        return Ok(false);
                    }
                    match m[i] {
                        None => {
                            let e = message(|| T::deref_mut_set(&mut p[i], c(k)));
                            ensure!(e == Some(format!("called deref_mut on a null UniquePtr<{}>", T::TYPENAME)), "{:?}", e);
                        }
                        Some(_) => {
                            T::deref_mut_set(&mut p[i], c(k));
                            m[i] = Some(c(k));
                        }
                    }
                }
                Drop(i) => {
                    drop(std::mem::replace(&mut p[i], UniquePtr::null()));
                    m[i] = None;
                }
                IntoRaw(i) => {
                    if raw.is_some() {
                        return Ok(false);
                    }
                    let q = std::mem::replace(&mut p[i], UniquePtr::null()).into_raw();
                    ensure!(q.is_null() == m[i].is_none() && (q.is_null() || q as *const T == at[i]));
                    *raw = Some((q, m[i].take()));
                }
                FromRaw(i) => match raw.take() {
                    None => return Ok(false),
                    Some((q, k)) => {
                        p[i] = unsafe { UniquePtr::from_raw(q) };
                        m[i] = k;
                        at[i] = q;
                    }
                },
                FromRawNull(i) => {
                    p[i] = unsafe { UniquePtr::from_raw(std::ptr::null_mut()) };
                    m[i] = None;
                }
                Move(i) => {
                    p[i] = std::mem::replace(&mut p[1 - i], UniquePtr::null());
                    m[i] = m[1 - i].take();
                    at[i] = at[1 - i];
                }
                Through(i) => {
                    // relocated by Rust through other containers
                    let q = std::mem::replace(&mut p[i], UniquePtr::null());
                    let mut b = Box::new(Some(vec![UniquePtr::null(), q]));
                    p[i] = b.as_mut().as_mut().unwrap().pop().unwrap();
                }
                Swap => {
                    p.swap(0, 1);
                    m.swap(0, 1);
                    at.swap(0, 1);
                }
            }
        }
        let mut n = raw.map_or(0, |r| r.1.is_some() as i64);
        for i in 0..2 {
            let null = m[i].is_none();
            n += !null as i64;
            ensure!(p[i].is_null() == null && p[i].as_ptr().is_null() == null && p[i].as_mut_ptr().is_null() == null);
            ensure!(p[i].as_ref().map(|x| x.val()) == m[i], "{:?} {:?}", p[i].as_ref().map(|x| x.val()), m[i]);
            ensure!(p[i].as_mut().map(|x| x.val()) == m[i]);
            let l = T::ulook(&p[i]);
            ensure!(l.null == null && l.val == m[i].unwrap_or(-9));
            if null {
                let e = message(|| (*p[i]).val());
                ensure!(e == Some(format!("called deref on a null UniquePtr<{}>", T::TYPENAME)), "{:?}", e);
            } else {
                ensure!((*p[i]).val() == m[i].unwrap());
                ensure!(p[i].as_ptr() == at[i] && p[i].as_mut_ptr() as *const T == at[i] && l.addr == at[i] as *const () as usize);
                ensure!(p[i].as_ref().unwrap() as *const T == at[i] && &*p[i] as *const T == at[i]);
                ensure!(&*p[i].pin_mut() as *const T == at[i]);
            }
            T::ufmt(&p[i])?;
            T::ucmp(&p[i], &p[0])?;
            T::ucmp(&p[i], &p[1])?;
            key.push(m[i].map_or(b'-', |k| b'0' + k as u8));
        }
        key.push(raw.map_or(b'-', |r| r.1.map_or(b'n', |k| b'0' + k as u8)));
        ensure!(!ffi::bad());
        ensure!(ffi::live() - live0 == if T::LEDGER { n * unit } else { 0 });
        if T::TYPENAME == "Tracked" {
            // a class's own operator new / delete pair up
            ensure!(ffi::own_news() - news0 == n);
        }
    }
    ensure!(ffi::live() == live0 && !ffi::bad() && ffi::own_news() == news0);
    news0 = 0;
    let _ = news0;
    Ok(true)
}
// -------------------------------------------------- SharedPtr and WeakPtr
#[derive(Clone, Copy, Debug)]
enum SOp {
    SNull(usize),
    SNew(usize, i32),
    SCMake(usize, i32),
    SCMakeNull(usize),
    SClone(usize, usize),
    SCloneFrom(usize, usize),
    STake(usize),
    SEcho(usize),
    SReset(usize, i32),
    SAlias(usize, usize),
    Hold(usize),
    Held(usize),
    Unhold,
    SSwap,
    Downgrade(usize, usize),
    WNull(usize),
    WClone(usize),
    WMake(usize),
    WEcho(usize),
    WDrop(usize),
    Upgrade(usize, usize),
}
fn sops() -> Vec<SOp> {
    use SOp::*;
    let mut v = vec![SSwap, Unhold];
    for i in 0..2 {
        v.extend([SNull(i), SNew(i, 1), SCMake(i, 2), SCMakeNull(i), SClone(i, 1 - i), SCloneFrom(i, 1 - i), STake(i), SEcho(i), SReset(i, 3), SAlias(i, i), SAlias(i, 1 - i), Hold(i), Held(i)]);
        v.extend([WNull(i), WClone(i), WMake(i), WEcho(i), WDrop(i)]);
        for j in 0..2 {
            v.extend([Downgrade(i, j), Upgrade(i, j)]);
        }
    }
    v
}
fn shistory<T: S>(all: &[SOp], t: &[u16], key: &mut Vec<u8>) -> R<bool> {
    use SOp::*;
    let live0 = ffi::live();
    {
        T::hold(&SharedPtr::null()); // left by a history that was not enabled
        // objects are numbered in order of creation
        let mut vals: Vec<i32> = vec![];
        let mut addr: Vec<*const T> = vec![];
        let mut p: [SharedPtr<T>; 2] = [SharedPtr::null(), SharedPtr::null()];
        let mut w: [WeakPtr<T>; 2] = [WeakPtr::null(), WeakPtr::null()];
        let mut m: [Option<usize>; 3] = [None; 3]; // [2]: held by C++
        let mut mw: [Option<usize>; 2] = [None; 2];
        let c = |k: i32| k % T::NVAL;
        macro_rules! made {
            ($i:expr, $k:expr) => {{
                vals.push(c($k));
                addr.push(match p[$i].as_ref() {
                    Some(r) => r as *const T,
                    None => return Err(format!("null after creation")),
                });
                m[$i] = Some(vals.len() - 1);
            }};
        }
        for o in t {
            match all[*o as usize] {
                SNull(i) => {
                    p[i] = SharedPtr::null();
                    m[i] = None;
                }
                SNew(i, k) => {
                    if !T::TRIVIAL {
                        T::hold(&SharedPtr::null());
                        return Ok(false);
                    }
                    p[i] = T::snew(c(k));
                    made!(i, k);
                }
                SCMake(i, k) => {
                    p[i] = T::smake(c(k));
                    made!(i, k);
                }
                SCMakeNull(i) => {
                    p[i] = T::smake(-1);
                    m[i] = None;
                }
                SClone(i, j) => {
                    p[i] = p[j].clone();
                    m[i] = m[j];
                }
                SCloneFrom(i, j) => {
                    let [a, b] = &mut p;
                    let (d, f) = if i == 0 { (a, b) } else { (b, a) };
                    d.clone_from(f);
                    m[i] = m[j];
                }
                STake(i) => {
                    let q = std::mem::replace(&mut p[i], SharedPtr::null());
                    ensure!(T::stake(q) == m[i].map_or(-9, |o| vals[o]));
                    m[i] = None;
                }
                SEcho(i) => {
                    let q = std::mem::replace(&mut p[i], SharedPtr::null());
                    p[i] = T::secho(q);
                }
                SReset(i, k) => {
                    T::sreset(&mut p[i], c(k));
                    made!(i, k);
                }
                SAlias(i, j) => {
                    p[i] = T::salias(&p[j]);
                    m[i] = m[j];
                }
                Hold(i) => {
                    T::hold(&p[i]);
                    m[2] = m[i];
                }
                Held(i) => {
                    p[i] = T::held();
                    m[i] = m[2];
                }
                Unhold => {
                    T::hold(&SharedPtr::null());
                    m[2] = None;
                }
                SSwap => {
                    p.swap(0, 1);
                    m.swap(0, 1);
                }
                Downgrade(i, j) => {
                    w[i] = p[j].downgrade();
                    mw[i] = m[j];
                }
                WNull(i) => {
                    w[i] = WeakPtr::null();
                    mw[i] = None;
                }
                WClone(i) => {
                    w[i] = w[1 - i].clone();
                    mw[i] = mw[1 - i];
                }
                WMake(i) => {
                    w[i] = T::wmake(p[i].clone());
                    mw[i] = m[i];
                }
                WEcho(i) => {
                    let q = std::mem::replace(&mut w[i], WeakPtr::null());
                    w[i] = T::wecho(q);
                }
                WDrop(i) => {
                    let n = w[1 - i].clone();
                    let q = std::mem::replace(&mut w[i], n);
                    mw[i] = mw[1 - i];
                    drop(q);
                }
                Upgrade(i, j) => {
                    p[i] = w[j].upgrade();
                    let alive = mw[j].is_some_and(|o| m.contains(&Some(o)));
                    m[i] = if alive { mw[j] } else { None };
                }
            }
        }
        let mut objs: Vec<usize> = m.iter().filter_map(|x| *x).collect();
        objs.sort();
        objs.dedup();
        ensure!(ffi::live() - live0 == if T::LEDGER { objs.len() as i64 } else { 0 });
        ensure!(!ffi::bad());
        let strong = |o: usize| m.iter().filter(|x| **x == Some(o)).count() as i64;
        for i in 0..2 {
            let null = m[i].is_none();
            ensure!(p[i].is_null() == null && p[i].as_ref().is_none() == null);
            let l = T::slook(&p[i]);
            ensure!(l.null == null);
            ensure!(T::suse(&p[i]) == m[i].map_or(0, strong), "use_count {} model {:?}", T::suse(&p[i]), m[i].map_or(0, strong));
            match m[i] {
                None => {
                    let e = message(|| (*p[i]).val());
                    ensure!(e == Some(format!("called deref on a null SharedPtr<{}>", T::TYPENAME)), "{:?}", e);
                }
                Some(o) => {
                    ensure!((*p[i]).val() == vals[o] && p[i].as_ref().unwrap().val() == vals[o] && l.val == vals[o]);
                    ensure!(p[i].as_ref().unwrap() as *const T == addr[o] && &*p[i] as *const T == addr[o]);
                    ensure!(l.addr == addr[o] as usize);
                }
            }
            // weak
            let alive = mw[i].filter(|o| m.contains(&Some(*o)));
            let l = T::wlook(&w[i]);
            ensure!(l.null == alive.is_none() && l.val == alive.map_or(-9, |o| vals[o]));
            let u = w[i].upgrade();
            ensure!(u.is_null() == alive.is_none());
            if let Some(o) = alive {
                ensure!(u.as_ref().unwrap() as *const T == addr[o] && u.val() == vals[o] && T::suse(&u) == strong(o) + 1);
            }
            drop(u);
            if let Some(o) = alive {
                ensure!(m[i] != Some(o) || T::suse(&p[i]) == strong(o));
            }
            T::sfmt(&p[i], &w[i])?;
            T::scmp(&p[i], &p[0])?;
            T::scmp(&p[i], &p[1])?;
        }
        // canonical object names
        let mut names: Vec<usize> = vec![];
        for x in m.iter().chain(mw.iter()) {
            match x {
                None => key.push(b'-'),
                Some(o) => {
                    let k = names.iter().position(|n| n == o).unwrap_or_else(|| {
                        names.push(*o);
                        names.len() - 1
                    });
                    key.extend([b'a' + k as u8, b'0' + vals[*o] as u8, b'0' + m.contains(&Some(*o)) as u8]);
                }
            }
        }
        T::hold(&SharedPtr::null());
    }
    ensure!(ffi::live() == live0 && !ffi::bad());
    Ok(true)
}
// ------------------------------------------------------- io delegation
thread_local! { static LOG: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) }; }
fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }
fn err<T>(k: i32, v: T) -> std::io::Result<T> { if k == 3 { Err(std::io::Error::new(std::io::ErrorKind::Other, "three")) } else { Ok(v) } }
impl Read for Pin<&mut Obj> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { log(format!("read {}", b.len())); b.fill(9); err(self.oval(), 5) }
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> std::io::Result<usize> { log(format!("read_to_end {:?}", b)); b.push(1); err(self.oval(), 6) }
    fn read_to_string(&mut self, b: &mut String) -> std::io::Result<usize> { log(format!("read_to_string {:?}", b)); b.push('q'); err(self.oval(), 7) }
    fn read_exact(&mut self, b: &mut [u8]) -> std::io::Result<()> { log(format!("read_exact {}", b.len())); b.fill(8); err(self.oval(), ()) }
}
impl Seek for Pin<&mut Obj> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { log(format!("seek {:?}", p)); err(self.oval(), 11) }
    fn rewind(&mut self) -> std::io::Result<()> { log("rewind".into()); err(self.oval(), ()) }
    fn stream_position(&mut self) -> std::io::Result<u64> { log("stream_position".into()); err(self.oval(), 12) }
    fn seek_relative(&mut self, o: i64) -> std::io::Result<()> { log(format!("seek_relative {}", o)); err(self.oval(), ()) }
}
impl Write for Pin<&mut Obj> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { log(format!("write {:?}", b)); err(self.oval(), 3) }
    fn write_vectored(&mut self, b: &[IoSlice]) -> std::io::Result<usize> { log(format!("write_vectored {:?}", b.iter().map(|x| x.to_vec()).collect::<Vec<_>>())); err(self.oval(), 4) }
    fn flush(&mut self) -> std::io::Result<()> { log("flush".into()); err(self.oval(), ()) }
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> { log(format!("write_all {:?}", b)); err(self.oval(), ()) }
    fn write_fmt(&mut self, a: std::fmt::Arguments) -> std::io::Result<()> { log(format!("write_fmt {}", a)); err(self.oval(), ()) }
}
const IOS: [&str; 18] = ["new 1", "new 3", "null", "read", "read_to_end", "read_to_string", "read_exact", "seek start", "seek end", "seek current", "rewind", "stream_position", "seek_relative", "write", "write_vectored", "flush", "write_all", "write_fmt"];
/// The operation done through `x`, as text.
fn io<X: Read + Seek + Write>(x: &mut X, op: &str) -> String {
    let mut v = vec![7u8];
    let mut s = String::from("s");
    let mut b = [0u8; 4];
    let r = match op {
        "read" => x.read(&mut b).map(|r| r as u64),
        "read_to_end" => x.read_to_end(&mut v).map(|r| r as u64),
        "read_to_string" => x.read_to_string(&mut s).map(|r| r as u64),
        "read_exact" => x.read_exact(&mut b).map(|_| 0),
        "seek start" => x.seek(SeekFrom::Start(u64::MAX)),
        "seek end" => x.seek(SeekFrom::End(-3)),
        "seek current" => x.seek(SeekFrom::Current(5)),
        "rewind" => x.rewind().map(|_| 0),
        "stream_position" => x.stream_position(),
        "seek_relative" => x.seek_relative(-9).map(|_| 0),
        "write" => x.write(b"w").map(|r| r as u64),
        "write_vectored" => x.write_vectored(&[IoSlice::new(b"ab"), IoSlice::new(b""), IoSlice::new(b"c")]).map(|r| r as u64),
        "flush" => x.flush().map(|_| 0),
        "write_all" => x.write_all(b"all").map(|_| 0),
        _ => x.write_fmt(format_args!("{}-{}", 1, "z")).map(|_| 0),
    };
    let l = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    format!("{:?} {:?} {:?} {:?} {:?}", r.map_err(|e| e.to_string()), v, s, b, l)
}
fn io_history(t: &[u16], key: &mut Vec<u8>) -> R<bool> {
    let mut p = UniquePtr::<Obj>::null();
    let mut k = -1;
    for (n, o) in t.iter().enumerate() {
        match IOS[*o as usize] {
            "new 1" => {
                p = ffi::umake_obj(1);
                k = 1;
            }
            "new 3" => {
                p = ffi::umake_obj(3);
                k = 3;
            }
            "null" => {
                p = UniquePtr::null();
                k = -1;
            }
            op => {
                if k < 0 {
                    let e = message(|| io(&mut p, op));
                    ensure!(e.is_some_and(|e| e.contains("on a null UniquePtr<Obj>")));
                    ensure!(LOG.with(|l| l.borrow().is_empty()));
                } else {
                    let a = io(&mut p, op);
                    let b = io(&mut p.pin_mut(), op);
                    ensure!(a == b, "{} vs {}", a, b);
                }
                if n + 1 < t.len() && t[n + 1] > 2 {
                    continue;
                }
            }
        }
    }
    LOG.with(|l| *l.borrow_mut() = Vec::new());
    key.push(k as u8);
    Ok(true)
}
pub fn systems() -> Vec<System> {
    fn u<T: U>(name: &str) -> System {
        let all = uops();
        let names = all.iter().map(|o| format!("{o:?}")).collect();
        rust_system(&format!("unique-{name}"), names, move |t, k| uhistory::<T>(&all, t, k))
    }
    fn s<T: S>(name: &str) -> System {
        let all = sops();
        let names = all.iter().map(|o| format!("{o:?}")).collect();
        rust_system(&format!("shared-{name}"), names, move |t, k| shistory::<T>(&all, t, k))
    }
    vec![
        rust_system("unique-io", IOS.iter().map(|s| s.to_string()).collect(), io_history),
        u::<Obj>("obj"),
        u::<Poly>("poly"),
        u::<Sh>("sh"),
        u::<P3>("p3"),
        u::<En>("en"),
        u::<Tracked>("tracked"),
        u::<TrackedA>("trackeda"),
        u::<CxxString>("string"),
        u::<CxxVector<i32>>("vi32"),
        u::<CxxVector<CxxString>>("vstring"),
        u::<CxxVector<Sh>>("vsh"),
        u::<CxxVector<Obj>>("vobj"),
        s::<Obj>("obj"),
        s::<Poly>("poly"),
        s::<Sh>("sh"),
        s::<P3>("p3"),
        s::<En>("en"),
        s::<Tracked>("tracked"),
        s::<TrackedA>("trackeda"),
        s::<CxxString>("string"),
        s::<bool>("bool"),
        s::<u8>("u8"),
        s::<u16>("u16"),
        s::<u32>("u32"),
        s::<u64>("u64"),
        s::<usize>("usize"),
        s::<i8>("i8"),
        s::<i16>("i16"),
        s::<i32>("i32"),
        s::<i64>("i64"),
        s::<isize>("isize"),
        s::<f32>("f32"),
        s::<f64>("f64"),
    ]
}
