//! Generated by gen_c07.py.
//! C07: CxxVector of every kind of element against a reference Vec<i32>.
use crate::engine::{rust_system, System};
use crate::ensure;
use cxx::{CxxString, CxxVector, UniquePtr};
use std::pin::Pin;

#[cxx::bridge(namespace = "c07")]
mod ffi {
    #[derive(Debug, Clone, PartialEq)]
    struct Sh {
        s: String,
        n: i32,
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    struct P3 {
        a: u8,
        b: u8,
        c: u8,
    }
    #[repr(i16)]
    #[derive(Debug)]
    enum En {
        A = 0,
        B = 1,
        C = 32767,
        D = -32768,
    }
    struct Look {
        len: usize,
        addr: usize,
        hash: u64,
        ok: bool,
    }
    unsafe extern "C++" {
        include!("rt/cc/c07.hpp");
        type Obj;
        type Tracked = crate::c07::Tracked;
        fn oval(self: &Obj) -> i32;
        fn oset(self: Pin<&mut Obj>, k: i32);
        fn live() -> i64;
        fn bad() -> bool;
        fn string_set(s: Pin<&mut CxxString>, k: i32);
        fn tracked_mk(k: i32) -> Tracked;
        fn cpush_u8(v: Pin<&mut CxxVector<u8>>, k: i32);
        fn cresize_u8(v: Pin<&mut CxxVector<u8>>, n: usize);
        fn cerase_u8(v: Pin<&mut CxxVector<u8>>);
        fn cswap_u8(a: Pin<&mut CxxVector<u8>>, b: Pin<&mut CxxVector<u8>>);
        fn ccopy_u8(a: Pin<&mut CxxVector<u8>>, b: &CxxVector<u8>);
        fn cmake_u8(n: usize) -> UniquePtr<CxxVector<u8>>;
        fn clook_u8(v: &CxxVector<u8>) -> Look;
        fn cat_u8(v: &CxxVector<u8>, i: usize) -> usize;
        fn crefl_u8(v: Pin<&mut CxxVector<u8>>) -> Pin<&mut CxxVector<u8>>;
        fn cpush_u16(v: Pin<&mut CxxVector<u16>>, k: i32);
        fn cresize_u16(v: Pin<&mut CxxVector<u16>>, n: usize);
        fn cerase_u16(v: Pin<&mut CxxVector<u16>>);
        fn cswap_u16(a: Pin<&mut CxxVector<u16>>, b: Pin<&mut CxxVector<u16>>);
        fn ccopy_u16(a: Pin<&mut CxxVector<u16>>, b: &CxxVector<u16>);
        fn cmake_u16(n: usize) -> UniquePtr<CxxVector<u16>>;
        fn clook_u16(v: &CxxVector<u16>) -> Look;
        fn cat_u16(v: &CxxVector<u16>, i: usize) -> usize;
        fn crefl_u16(v: Pin<&mut CxxVector<u16>>) -> Pin<&mut CxxVector<u16>>;
        fn cpush_u32(v: Pin<&mut CxxVector<u32>>, k: i32);
        fn cresize_u32(v: Pin<&mut CxxVector<u32>>, n: usize);
        fn cerase_u32(v: Pin<&mut CxxVector<u32>>);
        fn cswap_u32(a: Pin<&mut CxxVector<u32>>, b: Pin<&mut CxxVector<u32>>);
        fn ccopy_u32(a: Pin<&mut CxxVector<u32>>, b: &CxxVector<u32>);
        fn cmake_u32(n: usize) -> UniquePtr<CxxVector<u32>>;
        fn clook_u32(v: &CxxVector<u32>) -> Look;
        fn cat_u32(v: &CxxVector<u32>, i: usize) -> usize;
        fn crefl_u32(v: Pin<&mut CxxVector<u32>>) -> Pin<&mut CxxVector<u32>>;
        fn cpush_u64(v: Pin<&mut CxxVector<u64>>, k: i32);
        fn cresize_u64(v: Pin<&mut CxxVector<u64>>, n: usize);
        fn cerase_u64(v: Pin<&mut CxxVector<u64>>);
        fn cswap_u64(a: Pin<&mut CxxVector<u64>>, b: Pin<&mut CxxVector<u64>>);
        fn ccopy_u64(a: Pin<&mut CxxVector<u64>>, b: &CxxVector<u64>);
        fn cmake_u64(n: usize) -> UniquePtr<CxxVector<u64>>;
        fn clook_u64(v: &CxxVector<u64>) -> Look;
        fn cat_u64(v: &CxxVector<u64>, i: usize) -> usize;
        fn crefl_u64(v: Pin<&mut CxxVector<u64>>) -> Pin<&mut CxxVector<u64>>;
        fn cpush_usize(v: Pin<&mut CxxVector<usize>>, k: i32);
        fn cresize_usize(v: Pin<&mut CxxVector<usize>>, n: usize);
        fn cerase_usize(v: Pin<&mut CxxVector<usize>>);
        fn cswap_usize(a: Pin<&mut CxxVector<usize>>, b: Pin<&mut CxxVector<usize>>);
        fn ccopy_usize(a: Pin<&mut CxxVector<usize>>, b: &CxxVector<usize>);
        fn cmake_usize(n: usize) -> UniquePtr<CxxVector<usize>>;
        fn clook_usize(v: &CxxVector<usize>) -> Look;
        fn cat_usize(v: &CxxVector<usize>, i: usize) -> usize;
        fn crefl_usize(v: Pin<&mut CxxVector<usize>>) -> Pin<&mut CxxVector<usize>>;
        fn cpush_i8(v: Pin<&mut CxxVector<i8>>, k: i32);
        fn cresize_i8(v: Pin<&mut CxxVector<i8>>, n: usize);
        fn cerase_i8(v: Pin<&mut CxxVector<i8>>);
        fn cswap_i8(a: Pin<&mut CxxVector<i8>>, b: Pin<&mut CxxVector<i8>>);
        fn ccopy_i8(a: Pin<&mut CxxVector<i8>>, b: &CxxVector<i8>);
        fn cmake_i8(n: usize) -> UniquePtr<CxxVector<i8>>;
        fn clook_i8(v: &CxxVector<i8>) -> Look;
        fn cat_i8(v: &CxxVector<i8>, i: usize) -> usize;
        fn crefl_i8(v: Pin<&mut CxxVector<i8>>) -> Pin<&mut CxxVector<i8>>;
        fn cpush_i16(v: Pin<&mut CxxVector<i16>>, k: i32);
        fn cresize_i16(v: Pin<&mut CxxVector<i16>>, n: usize);
        fn cerase_i16(v: Pin<&mut CxxVector<i16>>);
        fn cswap_i16(a: Pin<&mut CxxVector<i16>>, b: Pin<&mut CxxVector<i16>>);
        fn ccopy_i16(a: Pin<&mut CxxVector<i16>>, b: &CxxVector<i16>);
        fn cmake_i16(n: usize) -> UniquePtr<CxxVector<i16>>;
        fn clook_i16(v: &CxxVector<i16>) -> Look;
        fn cat_i16(v: &CxxVector<i16>, i: usize) -> usize;
        fn crefl_i16(v: Pin<&mut CxxVector<i16>>) -> Pin<&mut CxxVector<i16>>;
        fn cpush_i32(v: Pin<&mut CxxVector<i32>>, k: i32);
        fn cresize_i32(v: Pin<&mut CxxVector<i32>>, n: usize);
        fn cerase_i32(v: Pin<&mut CxxVector<i32>>);
        fn cswap_i32(a: Pin<&mut CxxVector<i32>>, b: Pin<&mut CxxVector<i32>>);
        fn ccopy_i32(a: Pin<&mut CxxVector<i32>>, b: &CxxVector<i32>);
        fn cmake_i32(n: usize) -> UniquePtr<CxxVector<i32>>;
        fn clook_i32(v: &CxxVector<i32>) -> Look;
        fn cat_i32(v: &CxxVector<i32>, i: usize) -> usize;
        fn crefl_i32(v: Pin<&mut CxxVector<i32>>) -> Pin<&mut CxxVector<i32>>;
        fn cpush_i64(v: Pin<&mut CxxVector<i64>>, k: i32);
        fn cresize_i64(v: Pin<&mut CxxVector<i64>>, n: usize);
        fn cerase_i64(v: Pin<&mut CxxVector<i64>>);
        fn cswap_i64(a: Pin<&mut CxxVector<i64>>, b: Pin<&mut CxxVector<i64>>);
        fn ccopy_i64(a: Pin<&mut CxxVector<i64>>, b: &CxxVector<i64>);
        fn cmake_i64(n: usize) -> UniquePtr<CxxVector<i64>>;
        fn clook_i64(v: &CxxVector<i64>) -> Look;
        fn cat_i64(v: &CxxVector<i64>, i: usize) -> usize;
        fn crefl_i64(v: Pin<&mut CxxVector<i64>>) -> Pin<&mut CxxVector<i64>>;
        fn cpush_isize(v: Pin<&mut CxxVector<isize>>, k: i32);
        fn cresize_isize(v: Pin<&mut CxxVector<isize>>, n: usize);
        fn cerase_isize(v: Pin<&mut CxxVector<isize>>);
        fn cswap_isize(a: Pin<&mut CxxVector<isize>>, b: Pin<&mut CxxVector<isize>>);
        fn ccopy_isize(a: Pin<&mut CxxVector<isize>>, b: &CxxVector<isize>);
        fn cmake_isize(n: usize) -> UniquePtr<CxxVector<isize>>;
        fn clook_isize(v: &CxxVector<isize>) -> Look;
        fn cat_isize(v: &CxxVector<isize>, i: usize) -> usize;
        fn crefl_isize(v: Pin<&mut CxxVector<isize>>) -> Pin<&mut CxxVector<isize>>;
        fn cpush_f32(v: Pin<&mut CxxVector<f32>>, k: i32);
        fn cresize_f32(v: Pin<&mut CxxVector<f32>>, n: usize);
        fn cerase_f32(v: Pin<&mut CxxVector<f32>>);
        fn cswap_f32(a: Pin<&mut CxxVector<f32>>, b: Pin<&mut CxxVector<f32>>);
        fn ccopy_f32(a: Pin<&mut CxxVector<f32>>, b: &CxxVector<f32>);
        fn cmake_f32(n: usize) -> UniquePtr<CxxVector<f32>>;
        fn clook_f32(v: &CxxVector<f32>) -> Look;
        fn cat_f32(v: &CxxVector<f32>, i: usize) -> usize;
        fn crefl_f32(v: Pin<&mut CxxVector<f32>>) -> Pin<&mut CxxVector<f32>>;
        fn cpush_f64(v: Pin<&mut CxxVector<f64>>, k: i32);
        fn cresize_f64(v: Pin<&mut CxxVector<f64>>, n: usize);
        fn cerase_f64(v: Pin<&mut CxxVector<f64>>);
        fn cswap_f64(a: Pin<&mut CxxVector<f64>>, b: Pin<&mut CxxVector<f64>>);
        fn ccopy_f64(a: Pin<&mut CxxVector<f64>>, b: &CxxVector<f64>);
        fn cmake_f64(n: usize) -> UniquePtr<CxxVector<f64>>;
        fn clook_f64(v: &CxxVector<f64>) -> Look;
        fn cat_f64(v: &CxxVector<f64>, i: usize) -> usize;
        fn crefl_f64(v: Pin<&mut CxxVector<f64>>) -> Pin<&mut CxxVector<f64>>;
        fn cpush_string(v: Pin<&mut CxxVector<CxxString>>, k: i32);
        fn cresize_string(v: Pin<&mut CxxVector<CxxString>>, n: usize);
        fn cerase_string(v: Pin<&mut CxxVector<CxxString>>);
        fn cswap_string(a: Pin<&mut CxxVector<CxxString>>, b: Pin<&mut CxxVector<CxxString>>);
        fn ccopy_string(a: Pin<&mut CxxVector<CxxString>>, b: &CxxVector<CxxString>);
        fn cmake_string(n: usize) -> UniquePtr<CxxVector<CxxString>>;
        fn clook_string(v: &CxxVector<CxxString>) -> Look;
        fn cat_string(v: &CxxVector<CxxString>, i: usize) -> usize;
        fn crefl_string(v: Pin<&mut CxxVector<CxxString>>) -> Pin<&mut CxxVector<CxxString>>;
        fn cpush_sh(v: Pin<&mut CxxVector<Sh>>, k: i32);
        fn cresize_sh(v: Pin<&mut CxxVector<Sh>>, n: usize);
        fn cerase_sh(v: Pin<&mut CxxVector<Sh>>);
        fn cswap_sh(a: Pin<&mut CxxVector<Sh>>, b: Pin<&mut CxxVector<Sh>>);
        fn ccopy_sh(a: Pin<&mut CxxVector<Sh>>, b: &CxxVector<Sh>);
        fn cmake_sh(n: usize) -> UniquePtr<CxxVector<Sh>>;
        fn clook_sh(v: &CxxVector<Sh>) -> Look;
        fn cat_sh(v: &CxxVector<Sh>, i: usize) -> usize;
        fn crefl_sh(v: Pin<&mut CxxVector<Sh>>) -> Pin<&mut CxxVector<Sh>>;
        fn cpush_p3(v: Pin<&mut CxxVector<P3>>, k: i32);
        fn cresize_p3(v: Pin<&mut CxxVector<P3>>, n: usize);
        fn cerase_p3(v: Pin<&mut CxxVector<P3>>);
        fn cswap_p3(a: Pin<&mut CxxVector<P3>>, b: Pin<&mut CxxVector<P3>>);
        fn ccopy_p3(a: Pin<&mut CxxVector<P3>>, b: &CxxVector<P3>);
        fn cmake_p3(n: usize) -> UniquePtr<CxxVector<P3>>;
        fn clook_p3(v: &CxxVector<P3>) -> Look;
        fn cat_p3(v: &CxxVector<P3>, i: usize) -> usize;
        fn crefl_p3(v: Pin<&mut CxxVector<P3>>) -> Pin<&mut CxxVector<P3>>;
        fn cpush_en(v: Pin<&mut CxxVector<En>>, k: i32);
        fn cresize_en(v: Pin<&mut CxxVector<En>>, n: usize);
        fn cerase_en(v: Pin<&mut CxxVector<En>>);
        fn cswap_en(a: Pin<&mut CxxVector<En>>, b: Pin<&mut CxxVector<En>>);
        fn ccopy_en(a: Pin<&mut CxxVector<En>>, b: &CxxVector<En>);
        fn cmake_en(n: usize) -> UniquePtr<CxxVector<En>>;
        fn clook_en(v: &CxxVector<En>) -> Look;
        fn cat_en(v: &CxxVector<En>, i: usize) -> usize;
        fn crefl_en(v: Pin<&mut CxxVector<En>>) -> Pin<&mut CxxVector<En>>;
        fn cpush_obj(v: Pin<&mut CxxVector<Obj>>, k: i32);
        fn cresize_obj(v: Pin<&mut CxxVector<Obj>>, n: usize);
        fn cerase_obj(v: Pin<&mut CxxVector<Obj>>);
        fn cswap_obj(a: Pin<&mut CxxVector<Obj>>, b: Pin<&mut CxxVector<Obj>>);
        fn ccopy_obj(a: Pin<&mut CxxVector<Obj>>, b: &CxxVector<Obj>);
        fn cmake_obj(n: usize) -> UniquePtr<CxxVector<Obj>>;
        fn clook_obj(v: &CxxVector<Obj>) -> Look;
        fn cat_obj(v: &CxxVector<Obj>, i: usize) -> usize;
        fn crefl_obj(v: Pin<&mut CxxVector<Obj>>) -> Pin<&mut CxxVector<Obj>>;
        fn cpush_tracked(v: Pin<&mut CxxVector<Tracked>>, k: i32);
        fn cresize_tracked(v: Pin<&mut CxxVector<Tracked>>, n: usize);
        fn cerase_tracked(v: Pin<&mut CxxVector<Tracked>>);
        fn cswap_tracked(a: Pin<&mut CxxVector<Tracked>>, b: Pin<&mut CxxVector<Tracked>>);
        fn ccopy_tracked(a: Pin<&mut CxxVector<Tracked>>, b: &CxxVector<Tracked>);
        fn cmake_tracked(n: usize) -> UniquePtr<CxxVector<Tracked>>;
        fn clook_tracked(v: &CxxVector<Tracked>) -> Look;
        fn cat_tracked(v: &CxxVector<Tracked>, i: usize) -> usize;
        fn crefl_tracked(v: Pin<&mut CxxVector<Tracked>>) -> Pin<&mut CxxVector<Tracked>>;
    }
    impl CxxVector<Tracked> {}
}
use ffi::{En, Obj, P3, Sh};
type R<T = ()> = Result<T, String>;
const TEXTS: [&str; 4] = ["", "one", "a text longer than any small string buffer", "\u{1f980}"];
#[repr(C)]
#[derive(Debug)]
pub struct Tracked {
    id: u64,
    val: i32,
    pad: i32,
}
unsafe impl cxx::ExternType for Tracked {
    type Id = cxx::type_id!("c07::Tracked");
    type Kind = cxx::kind::Trivial;
}
unsafe extern "C" {
    fn vk7_drop(id: u64);
}
impl Drop for Tracked {
    fn drop(&mut self) {
        unsafe { vk7_drop(self.id) }
    }
}
impl std::fmt::Debug for Obj {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Obj{}", self.oval())
    }
}
trait Elem: cxx::vector::VectorElement + std::fmt::Debug + 'static {
    fn val(&self) -> i32;
    fn set(self: Pin<&mut Self>, k: i32);
    fn cpush(v: Pin<&mut CxxVector<Self>>, k: i32);
    fn cresize(v: Pin<&mut CxxVector<Self>>, n: usize);
    fn cerase(v: Pin<&mut CxxVector<Self>>);
    fn cswap(a: Pin<&mut CxxVector<Self>>, b: Pin<&mut CxxVector<Self>>);
    fn ccopy(a: Pin<&mut CxxVector<Self>>, b: &CxxVector<Self>);
    fn cmake(n: usize) -> UniquePtr<CxxVector<Self>>;
    fn clook(v: &CxxVector<Self>) -> ffi::Look;
    fn cat(v: &CxxVector<Self>, i: usize) -> usize;
    fn crefl(v: Pin<&mut CxxVector<Self>>) -> Pin<&mut CxxVector<Self>>;
    const LEDGER: bool = false;
    /// Operations that need the element by value.
    fn by_value(_v: &mut UniquePtr<CxxVector<Self>>, _m: &mut Vec<i32>, _op: ByVal) -> R<bool> { Ok(false) }
    fn slices(_v: &mut UniquePtr<CxxVector<Self>>, _m: &[i32]) -> R { Ok(()) }
    fn push_to_both(_v: &mut UniquePtr<CxxVector<Self>>) {}
}
#[derive(Clone, Copy, Debug)]
pub enum ByVal { Push(i32), Pop, PopToOwn, Reverse, SwapEnds }
macro_rules! common {
    ($cpush:ident $cresize:ident $cerase:ident $cswap:ident $ccopy:ident $cmake:ident $clook:ident $cat:ident $crefl:ident) => {
        fn cpush(v: Pin<&mut CxxVector<Self>>, k: i32) { ffi::$cpush(v, k) }
        fn cresize(v: Pin<&mut CxxVector<Self>>, n: usize) { ffi::$cresize(v, n) }
        fn cerase(v: Pin<&mut CxxVector<Self>>) { ffi::$cerase(v) }
        fn cswap(a: Pin<&mut CxxVector<Self>>, b: Pin<&mut CxxVector<Self>>) { ffi::$cswap(a, b) }
        fn ccopy(a: Pin<&mut CxxVector<Self>>, b: &CxxVector<Self>) { ffi::$ccopy(a, b) }
        fn cmake(n: usize) -> UniquePtr<CxxVector<Self>> { ffi::$cmake(n) }
        fn clook(v: &CxxVector<Self>) -> ffi::Look { ffi::$clook(v) }
        fn cat(v: &CxxVector<Self>, i: usize) -> usize { ffi::$cat(v, i) }
        fn crefl(v: Pin<&mut CxxVector<Self>>) -> Pin<&mut CxxVector<Self>> { ffi::$crefl(v) }
    };
}
macro_rules! trivial {
    ($mk:expr) => {
        fn by_value(v: &mut UniquePtr<CxxVector<Self>>, m: &mut Vec<i32>, op: ByVal) -> R<bool> {
            let mk: fn(i32) -> Self = $mk;
            match op {
                ByVal::Push(k) => {
                    v.pin_mut().push(mk(k));
                    m.push(k);
                }
                ByVal::Pop => {
                    let x = v.pin_mut().pop();
                    ensure!(x.as_ref().map(|x| x.val()) == m.pop());
                }
                ByVal::PopToOwn => {
                    // keep the popped values alive together, put them back reversed
                    let (a, b) = (v.pin_mut().pop(), v.pin_mut().pop());
                    let (p, q) = (m.pop(), m.pop());
                    ensure!(a.as_ref().map(|x| x.val()) == p && b.as_ref().map(|x| x.val()) == q);
                    for (x, k) in [(a, p), (b, q)] {
                        if let Some(x) = x {
                            v.pin_mut().push(x);
                            m.push(k.unwrap());
                        }
                    }
                }
                ByVal::Reverse => {
                    v.pin_mut().as_mut_slice().reverse();
                    m.reverse();
                }
                ByVal::SwapEnds => {
                    // two disjoint exclusive elements held at once
                    let n = m.len();
                    if n < 2 {
                        return Ok(false);
                    }
                    let mut it: Vec<Pin<&mut Self>> = v.pin_mut().iter_mut().collect();
                    let (a, b) = it.split_at_mut(n - 1);
                    unsafe { std::mem::swap(a[0].as_mut().get_unchecked_mut(), b[0].as_mut().get_unchecked_mut()) };
                    m.swap(0, n - 1);
                }
            }
            Ok(true)
        }
        fn slices(v: &mut UniquePtr<CxxVector<Self>>, m: &[i32]) -> R {
            let s = v.as_slice();
            ensure!(s.len() == m.len() && s.iter().map(|x| x.val()).eq(m.iter().copied()));
            let p = s.as_ptr() as usize;
            ensure!(p % std::mem::align_of::<Self>() == 0 && p != 0);
            ensure!(m.is_empty() || p == Self::cat(v, 0));
            ensure!(format!("{:?}", &**v) == format!("{:?}", v.as_slice()));
            let s = v.pin_mut().as_mut_slice();
            ensure!(s.len() == m.len() && (m.is_empty() || s.as_ptr() as usize == p));
            Ok(())
        }
    };
}
impl Elem for u8 {
    common!(cpush_u8 cresize_u8 cerase_u8 cswap_u8 ccopy_u8 cmake_u8 clook_u8 cat_u8 crefl_u8);
    fn val(&self) -> i32 { [0 as u8, 1 as u8, u8::MAX, u8::MAX - 1].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as u8, 1 as u8, u8::MAX, u8::MAX - 1][k as usize]; }
    trivial!(|k| [0 as u8, 1 as u8, u8::MAX, u8::MAX - 1][k as usize]);
}
impl Elem for u16 {
    common!(cpush_u16 cresize_u16 cerase_u16 cswap_u16 ccopy_u16 cmake_u16 clook_u16 cat_u16 crefl_u16);
    fn val(&self) -> i32 { [0 as u16, 1 as u16, u16::MAX, u16::MAX - 1].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as u16, 1 as u16, u16::MAX, u16::MAX - 1][k as usize]; }
    trivial!(|k| [0 as u16, 1 as u16, u16::MAX, u16::MAX - 1][k as usize]);
}
impl Elem for u32 {
    common!(cpush_u32 cresize_u32 cerase_u32 cswap_u32 ccopy_u32 cmake_u32 clook_u32 cat_u32 crefl_u32);
    fn val(&self) -> i32 { [0 as u32, 1 as u32, u32::MAX, u32::MAX - 1].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as u32, 1 as u32, u32::MAX, u32::MAX - 1][k as usize]; }
    trivial!(|k| [0 as u32, 1 as u32, u32::MAX, u32::MAX - 1][k as usize]);
}
impl Elem for u64 {
    common!(cpush_u64 cresize_u64 cerase_u64 cswap_u64 ccopy_u64 cmake_u64 clook_u64 cat_u64 crefl_u64);
    fn val(&self) -> i32 { [0 as u64, 1 as u64, u64::MAX, u64::MAX - 1].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as u64, 1 as u64, u64::MAX, u64::MAX - 1][k as usize]; }
    trivial!(|k| [0 as u64, 1 as u64, u64::MAX, u64::MAX - 1][k as usize]);
}
impl Elem for usize {
    common!(cpush_usize cresize_usize cerase_usize cswap_usize ccopy_usize cmake_usize clook_usize cat_usize crefl_usize);
    fn val(&self) -> i32 { [0 as usize, 1 as usize, usize::MAX, usize::MAX - 1].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as usize, 1 as usize, usize::MAX, usize::MAX - 1][k as usize]; }
    trivial!(|k| [0 as usize, 1 as usize, usize::MAX, usize::MAX - 1][k as usize]);
}
impl Elem for i8 {
    common!(cpush_i8 cresize_i8 cerase_i8 cswap_i8 ccopy_i8 cmake_i8 clook_i8 cat_i8 crefl_i8);
    fn val(&self) -> i32 { [0 as i8, 1 as i8, i8::MAX, i8::MIN].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as i8, 1 as i8, i8::MAX, i8::MIN][k as usize]; }
    trivial!(|k| [0 as i8, 1 as i8, i8::MAX, i8::MIN][k as usize]);
}
impl Elem for i16 {
    common!(cpush_i16 cresize_i16 cerase_i16 cswap_i16 ccopy_i16 cmake_i16 clook_i16 cat_i16 crefl_i16);
    fn val(&self) -> i32 { [0 as i16, 1 as i16, i16::MAX, i16::MIN].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as i16, 1 as i16, i16::MAX, i16::MIN][k as usize]; }
    trivial!(|k| [0 as i16, 1 as i16, i16::MAX, i16::MIN][k as usize]);
}
impl Elem for i32 {
    common!(cpush_i32 cresize_i32 cerase_i32 cswap_i32 ccopy_i32 cmake_i32 clook_i32 cat_i32 crefl_i32);
    fn val(&self) -> i32 { [0 as i32, 1 as i32, i32::MAX, i32::MIN].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as i32, 1 as i32, i32::MAX, i32::MIN][k as usize]; }
    trivial!(|k| [0 as i32, 1 as i32, i32::MAX, i32::MIN][k as usize]);
}
impl Elem for i64 {
    common!(cpush_i64 cresize_i64 cerase_i64 cswap_i64 ccopy_i64 cmake_i64 clook_i64 cat_i64 crefl_i64);
    fn val(&self) -> i32 { [0 as i64, 1 as i64, i64::MAX, i64::MIN].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as i64, 1 as i64, i64::MAX, i64::MIN][k as usize]; }
    trivial!(|k| [0 as i64, 1 as i64, i64::MAX, i64::MIN][k as usize]);
}
impl Elem for isize {
    common!(cpush_isize cresize_isize cerase_isize cswap_isize ccopy_isize cmake_isize clook_isize cat_isize crefl_isize);
    fn val(&self) -> i32 { [0 as isize, 1 as isize, isize::MAX, isize::MIN].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as isize, 1 as isize, isize::MAX, isize::MIN][k as usize]; }
    trivial!(|k| [0 as isize, 1 as isize, isize::MAX, isize::MIN][k as usize]);
}
impl Elem for f32 {
    common!(cpush_f32 cresize_f32 cerase_f32 cswap_f32 ccopy_f32 cmake_f32 clook_f32 cat_f32 crefl_f32);
    fn val(&self) -> i32 { [0 as f32, 1 as f32, f32::MAX, -1.5].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as f32, 1 as f32, f32::MAX, -1.5][k as usize]; }
    trivial!(|k| [0 as f32, 1 as f32, f32::MAX, -1.5][k as usize]);
}
impl Elem for f64 {
    common!(cpush_f64 cresize_f64 cerase_f64 cswap_f64 ccopy_f64 cmake_f64 clook_f64 cat_f64 crefl_f64);
    fn val(&self) -> i32 { [0 as f64, 1 as f64, f64::MAX, -1.5].iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = [0 as f64, 1 as f64, f64::MAX, -1.5][k as usize]; }
    trivial!(|k| [0 as f64, 1 as f64, f64::MAX, -1.5][k as usize]);
}
impl Elem for CxxString {
    common!(cpush_string cresize_string cerase_string cswap_string ccopy_string cmake_string clook_string cat_string crefl_string);
    fn val(&self) -> i32 { TEXTS.iter().position(|x| x.as_bytes() == self.as_bytes()).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { ffi::string_set(self, k) }
}
impl Elem for Sh {
    common!(cpush_sh cresize_sh cerase_sh cswap_sh ccopy_sh cmake_sh clook_sh cat_sh crefl_sh);
    fn val(&self) -> i32 { if TEXTS.get(self.n as usize) == Some(&&*self.s) { self.n } else { -1 } }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = Sh { s: TEXTS[k as usize].to_owned(), n: k }; }
    trivial!(|k| Sh { s: TEXTS[k as usize].to_owned(), n: k });
}
impl Elem for P3 {
    common!(cpush_p3 cresize_p3 cerase_p3 cswap_p3 ccopy_p3 cmake_p3 clook_p3 cat_p3 crefl_p3);
    fn val(&self) -> i32 { if self.a == self.b && self.b == self.c { self.a as i32 } else { -1 } }
    fn set(self: Pin<&mut Self>, k: i32) { let k = k as u8; *self.get_mut() = P3 { a: k, b: k, c: k }; }
    trivial!(|k| { let k = k as u8; P3 { a: k, b: k, c: k } });
}
const ENS: [En; 4] = [En::A, En::B, En::C, En::D];
impl Elem for En {
    common!(cpush_en cresize_en cerase_en cswap_en ccopy_en cmake_en clook_en cat_en crefl_en);
    fn val(&self) -> i32 { ENS.iter().position(|x| x == self).map_or(-1, |x| x as i32) }
    fn set(self: Pin<&mut Self>, k: i32) { *self.get_mut() = ENS[k as usize]; }
    trivial!(|k| ENS[k as usize]);
}
impl Elem for Obj {
    common!(cpush_obj cresize_obj cerase_obj cswap_obj ccopy_obj cmake_obj clook_obj cat_obj crefl_obj);
    fn val(&self) -> i32 { self.oval() }
    fn set(self: Pin<&mut Self>, k: i32) { self.oset(k) }
    const LEDGER: bool = true;
}
impl Elem for Tracked {
    common!(cpush_tracked cresize_tracked cerase_tracked cswap_tracked ccopy_tracked cmake_tracked clook_tracked cat_tracked crefl_tracked);
    fn val(&self) -> i32 { self.val }
    fn set(self: Pin<&mut Self>, k: i32) { self.get_mut().val = k }
    const LEDGER: bool = true;
    trivial!(|k| ffi::tracked_mk(k));
}

#[derive(Clone, Copy, Debug)]
enum Op {
    New(usize),
    CMake(usize, usize),
    B(usize, ByVal),
    CPush(usize, i32),
    Set(usize, usize, i32),
    SetLast(usize, i32),
    SetAll(usize),
    CResize(usize, usize),
    CErase(usize),
    CCopy(usize),
    CSwap,
    RustSwap,
    Leak(usize),
}
use Op::*;
fn ops() -> Vec<Op> {
    let mut v = vec![CSwap, RustSwap];
    for i in 0..2 {
        v.extend([
            New(i), CMake(i, 0), CMake(i, 3), B(i, ByVal::Push(1)), B(i, ByVal::Push(2)), B(i, ByVal::Push(3)),
            B(i, ByVal::Pop), B(i, ByVal::PopToOwn), B(i, ByVal::Reverse), B(i, ByVal::SwapEnds), CPush(i, 0), CPush(i, 2), CPush(i, 3),
            Set(i, 0, 3), Set(i, 1, 2), SetLast(i, 1), SetAll(i), CResize(i, 0), CResize(i, 2), CErase(i), CCopy(i), Leak(i),
        ]);
    }
    v
}
const MAX: usize = 5;
fn agree<T: Elem>(v: &mut UniquePtr<CxxVector<T>>, m: &[i32]) -> R {
    let n = m.len();
    let r: &CxxVector<T> = v.as_ref().unwrap();
    ensure!(r.len() == n && r.is_empty() == (n == 0));
    for i in 0..n {
        ensure!(r.get(i).map(|x| x.val()) == Some(m[i]), "{:?}", r.get(i));
        ensure!(r.get(i).unwrap() as *const T as usize == T::cat(r, i));
        ensure!(unsafe { r.get_unchecked(i) } as *const T as usize == T::cat(r, i));
    }
    for i in [n, n + 1, n + 100, usize::MAX / 2, usize::MAX] {
        ensure!(r.get(i).is_none());
    }
    let l = T::clook(r);
    let mut h = 7u64;
    for x in m {
        h = h.wrapping_mul(31).wrapping_add(*x as u64);
    }
    ensure!(l.ok && l.len == n && l.hash == h && l.addr == r as *const CxxVector<T> as usize);
    // both ways of getting an iterator, remaining lengths at every step
    for k in 0..2 {
        let mut it = if k == 0 { r.iter() } else { r.into_iter() };
        for i in 0..n {
            ensure!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)));
            ensure!(it.next().map(|x| x.val()) == Some(m[i]));
        }
        for _ in 0..3 {
            ensure!(it.len() == 0 && it.size_hint() == (0, Some(0)) && it.next().is_none());
        }
    }
    for i in 0..=n {
        // resumed in the middle
        ensure!(r.iter().skip(i).map(|x| x.val()).eq(m[i..].iter().copied()));
        ensure!(r.iter().nth(i).map(|x| x.val()) == m.get(i).copied());
    }
    ensure!(r.iter().count() == n && r.iter().last().map(|x| x.val()) == m.last().copied());
    ensure!(format!("{:?}", r) == format!("{:?}", r.iter().collect::<Vec<_>>()));
    ensure!(format!("{:?}", v) == format!("{:?}", &**v));
    for i in [n, n + 1, usize::MAX] {
        ensure!(v.pin_mut().index_mut(i).is_none());
    }
    for i in 0..n {
        let at = T::cat(v, i);
        let p = v.pin_mut().index_mut(i).unwrap();
        ensure!(p.val() == m[i] && &*p as *const T as usize == at);
        let p = unsafe { v.pin_mut().index_unchecked_mut(i) };
        ensure!(p.val() == m[i] && &*p as *const T as usize == at);
    }
    for k in 0..2 {
        let mut it = if k == 0 { v.pin_mut().iter_mut() } else { v.pin_mut().into_iter() };
        for i in 0..n {
            ensure!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)));
            ensure!(it.next().map(|x| x.val()) == Some(m[i]));
        }
        for _ in 0..3 {
            ensure!(it.len() == 0 && it.size_hint() == (0, Some(0)) && it.next().is_none());
        }
    }
    // all elements exclusively at once, no two the same
    let mut all: Vec<usize> = v.pin_mut().iter_mut().map(|p| &*p as *const T as usize).collect();
    all.dedup();
    ensure!(all.len() == n);
    T::slices(v, m)
}
fn history<T: Elem>(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> R<bool> {
    let live0 = ffi::live();
    {
        let mut v = [CxxVector::<T>::new(), T::cmake(2)];
        let mut m: [Vec<i32>; 2] = [vec![], vec![0, 1]];
        for o in t {
            match all[*o as usize] {
                New(i) => {
                    v[i] = CxxVector::new();
                    m[i].clear();
                }
                CMake(i, n) => {
                    v[i] = T::cmake(n);
                    m[i] = (0..n as i32).map(|k| k % 4).collect();
                }
                B(i, op) => {
                    let [p, q] = &mut m;
                    if !T::by_value(&mut v[i], if i == 0 { p } else { q }, op)? {
                        return Ok(false);
                    }
                }
                CPush(i, k) => {
                    T::cpush(v[i].pin_mut(), k);
                    m[i].push(k);
                }
                Set(i, at, k) => {
                    let p = v[i].pin_mut().index_mut(at);
                    ensure!(p.is_some() == (at < m[i].len()));
                    match p {
                        None => return Ok(false),
                        Some(p) => p.set(k),
                    }
                    m[i][at] = k;
                }
                SetLast(i, k) => {
                    let n = m[i].len();
                    if n == 0 {
                        return Ok(false);
                    }
                    v[i].pin_mut().iter_mut().last().unwrap().set(k);
                    m[i][n - 1] = k;
                }
                SetAll(i) => {
                    for (j, p) in v[i].pin_mut().iter_mut().enumerate() {
                        p.set((j % 3) as i32 + 1);
                        m[i][j] = (j % 3) as i32 + 1;
                    }
                }
                CResize(i, n) => {
                    T::cresize(v[i].pin_mut(), n);
                    m[i].resize(n, 0);
                }
                CErase(i) => {
                    T::cerase(T::crefl(v[i].pin_mut()));
                    if !m[i].is_empty() {
                        m[i].remove(0);
                    }
                }
                CCopy(i) => {
                    let [p, q] = &mut v;
                    let (d, f) = if i == 0 { (p, q) } else { (q, p) };
                    T::ccopy(d.pin_mut(), f);
                    m[i] = m[1 - i].clone();
                }
                CSwap => {
                    let [p, q] = &mut v;
                    T::cswap(p.pin_mut(), q.pin_mut());
                    m.swap(0, 1);
                }
                RustSwap => {
                    v.swap(0, 1);
                    m.swap(0, 1);
                }
                Leak(i) => {
                    // into_raw / from_raw keeps the vector
                    let p = std::mem::replace(&mut v[i], UniquePtr::null());
                    ensure!(v[i].is_null());
                    v[i] = unsafe { UniquePtr::from_raw(p.into_raw()) };
                }
            }
            if m.iter().any(|x| x.len() > MAX) {
                return Ok(false);
            }
        }
        for i in 0..2 {
            agree(&mut v[i], &m[i])?;
            key.extend(m[i].iter().map(|x| *x as u8));
            key.push(b'|');
        }
        ensure!(!ffi::bad());
        ensure!(ffi::live() - live0 == if T::LEDGER { (m[0].len() + m[1].len()) as i64 } else { 0 });
    }
    ensure!(ffi::live() == live0 && !ffi::bad());
    Ok(true)
}
fn system<T: Elem>(name: &str) -> System {
    let all = ops();
    let names = all.iter().map(|o| format!("{o:?}")).collect();
    rust_system(&format!("vector-{name}"), names, move |t, k| history::<T>(&all, t, k))
}
pub fn systems() -> Vec<System> {
    vec![
        system::<u8>("u8"),
        system::<u16>("u16"),
        system::<u32>("u32"),
        system::<u64>("u64"),
        system::<usize>("usize"),
        system::<i8>("i8"),
        system::<i16>("i16"),
        system::<i32>("i32"),
        system::<i64>("i64"),
        system::<isize>("isize"),
        system::<f32>("f32"),
        system::<f64>("f64"),
        system::<CxxString>("string"),
        system::<Sh>("sh"),
        system::<P3>("p3"),
        system::<En>("en"),
        system::<Obj>("obj"),
        system::<Tracked>("tracked"),
    ]
}
