use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
#[cxx::bridge(namespace = "c04")]
mod ffi {
    #[derive(Clone, Copy)]
    struct P3 {
        a: u8,
        b: u8,
        c: u8,
    }
    #[derive(Clone, Copy)]
    struct P24 {
        a: u64,
        b: u8,
        c: u64,
    }
    struct Sh {
        s: String,
        n: i32,
    }
    #[repr(u16)]
    enum En {
        A = 1,
    }
    extern "Rust" {
        type Op;
        fn val(self: &Op) -> i32;
        fn set(self: &mut Op, k: i32);
        type Big;
        fn val(self: &Big) -> i32;
        fn set(self: &mut Big, k: i32);
        type Zst;
        fn val(self: &Zst) -> i32;
        fn set(self: &mut Zst, k: i32);
        type ZstA;
        fn val(self: &ZstA) -> i32;
        fn set(self: &mut ZstA, k: i32);
    }
    // For every kind: rust_len/rust_at look at a slice made in C++ (checking it
    // is well formed), rust_set writes through one, rust_vec makes a vector,
    // rust_sub returns a sub-slice of a Rust vector.
    extern "Rust" {
        fn look_u8(s: &[u8]) -> Look;
        fn look_u16(s: &[u16]) -> Look;
        fn look_u64(s: &[u64]) -> Look;
        fn look_f32(s: &[f32]) -> Look;
        fn look_bool(s: &[bool]) -> Look;
        fn look_p3(s: &[P3]) -> Look;
        fn look_p24(s: &[P24]) -> Look;
        fn look_string(s: &[String]) -> Look;
        fn look_sh(s: &[Sh]) -> Look;
        fn look_en(s: &[En]) -> Look;
        fn look_op(s: &[Op]) -> Look;
        fn look_big(s: &[Big]) -> Look;
        fn look_zst(s: &[Zst]) -> Look;
        fn look_zsta(s: &[ZstA]) -> Look;
        fn poke_u8(s: &mut [u8], i: usize, k: i32);
        fn poke_u16(s: &mut [u16], i: usize, k: i32);
        fn poke_u64(s: &mut [u64], i: usize, k: i32);
        fn poke_f32(s: &mut [f32], i: usize, k: i32);
        fn poke_bool(s: &mut [bool], i: usize, k: i32);
        fn poke_p3(s: &mut [P3], i: usize, k: i32);
        fn poke_p24(s: &mut [P24], i: usize, k: i32);
        fn poke_string(s: &mut [String], i: usize, k: i32);
        fn poke_sh(s: &mut [Sh], i: usize, k: i32);
        fn poke_en(s: &mut [En], i: usize, k: i32);
        fn poke_op(s: &mut [Op], i: usize, k: i32);
        fn poke_big(s: &mut [Big], i: usize, k: i32);
        fn poke_zst(s: &mut [Zst], i: usize, k: i32);
        fn poke_zsta(s: &mut [ZstA], i: usize, k: i32);
        fn sub_u8(s: &[u8], a: usize, b: usize) -> &[u8];
        fn sub_u16(s: &[u16], a: usize, b: usize) -> &[u16];
        fn sub_u64(s: &[u64], a: usize, b: usize) -> &[u64];
        fn sub_f32(s: &[f32], a: usize, b: usize) -> &[f32];
        fn sub_bool(s: &[bool], a: usize, b: usize) -> &[bool];
        fn sub_p3(s: &[P3], a: usize, b: usize) -> &[P3];
        fn sub_p24(s: &[P24], a: usize, b: usize) -> &[P24];
        fn sub_string(s: &[String], a: usize, b: usize) -> &[String];
        fn sub_sh(s: &[Sh], a: usize, b: usize) -> &[Sh];
        fn sub_en(s: &[En], a: usize, b: usize) -> &[En];
        fn sub_op(s: &[Op], a: usize, b: usize) -> &[Op];
        fn sub_big(s: &[Big], a: usize, b: usize) -> &[Big];
        fn sub_zst(s: &[Zst], a: usize, b: usize) -> &[Zst];
        fn sub_zsta(s: &[ZstA], a: usize, b: usize) -> &[ZstA];
        fn submut_u8(s: &mut [u8], a: usize, b: usize) -> &mut [u8];
        fn submut_u16(s: &mut [u16], a: usize, b: usize) -> &mut [u16];
        fn submut_u64(s: &mut [u64], a: usize, b: usize) -> &mut [u64];
        fn submut_f32(s: &mut [f32], a: usize, b: usize) -> &mut [f32];
        fn submut_bool(s: &mut [bool], a: usize, b: usize) -> &mut [bool];
        fn submut_p3(s: &mut [P3], a: usize, b: usize) -> &mut [P3];
        fn submut_p24(s: &mut [P24], a: usize, b: usize) -> &mut [P24];
        fn submut_string(s: &mut [String], a: usize, b: usize) -> &mut [String];
        fn submut_sh(s: &mut [Sh], a: usize, b: usize) -> &mut [Sh];
        fn submut_en(s: &mut [En], a: usize, b: usize) -> &mut [En];
        fn submut_op(s: &mut [Op], a: usize, b: usize) -> &mut [Op];
        fn submut_big(s: &mut [Big], a: usize, b: usize) -> &mut [Big];
        fn submut_zst(s: &mut [Zst], a: usize, b: usize) -> &mut [Zst];
        fn submut_zsta(s: &mut [ZstA], a: usize, b: usize) -> &mut [ZstA];
        fn vec_u8(n: usize) -> Vec<u8>;
        fn vec_u16(n: usize) -> Vec<u16>;
        fn vec_u64(n: usize) -> Vec<u64>;
        fn vec_f32(n: usize) -> Vec<f32>;
        fn vec_bool(n: usize) -> Vec<bool>;
        fn vec_p3(n: usize) -> Vec<P3>;
        fn vec_p24(n: usize) -> Vec<P24>;
        fn vec_string(n: usize) -> Vec<String>;
        fn vec_sh(n: usize) -> Vec<Sh>;
        fn vec_en(n: usize) -> Vec<En>;
        fn vec_op(n: usize) -> Vec<Op>;
        fn vec_big(n: usize) -> Vec<Big>;
        fn vec_zst(n: usize) -> Vec<Zst>;
        fn vec_zsta(n: usize) -> Vec<ZstA>;
    }
    /// What Rust saw: address, length, sum of i * value, well-formedness.
    #[derive(Clone, Copy)]
    struct Look {
        addr: usize,
        len: usize,
        sum: i64,
        ok: bool,
    }
}
use ffi::*;
pub struct Op(i32);
pub struct Big([u64; 5], i32);
pub struct Zst;
#[repr(align(8))]
pub struct ZstA;
impl Op {
    fn val(&self) -> i32 {
        self.0
    }
    fn set(&mut self, k: i32) {
        self.0 = k
    }
}
impl Big {
    fn val(&self) -> i32 {
        self.1
    }
    fn set(&mut self, k: i32) {
        self.1 = k
    }
}
impl Zst {
    fn val(&self) -> i32 {
        7
    }
    fn set(&mut self, _k: i32) {}
}
impl ZstA {
    fn val(&self) -> i32 {
        assert!(self as *const Self as usize % 8 == 0);
        7
    }
    fn set(&mut self, _k: i32) {}
}
trait V {
    fn mk(k: i32) -> Self;
    fn v(&self) -> i32;
    fn s(&mut self, k: i32);
}
macro_rules! prim { ($($t:ty)*) => {$(impl V for $t {
    fn mk(k: i32) -> Self { k as $t } fn v(&self) -> i32 { *self as i32 } fn s(&mut self, k: i32) { *self = k as $t }
})*} }
prim!(u8 u16 u64 f32);
macro_rules! via { ($t:ty, $mk:expr, $v:expr, $s:expr) => { impl V for $t {
    fn mk(k: i32) -> Self { let f: fn(i32) -> $t = $mk; f(k) } fn v(&self) -> i32 { let f: fn(&$t) -> i32 = $v; f(self) } fn s(&mut self, k: i32) { let f: fn(&mut $t, i32) = $s; f(self, k) }
} } }
via!(bool, |k| k & 1 == 1, |x| *x as i32, |x, k| *x = k & 1 == 1);
via!(P3, |k| P3 { a: k as u8, b: k as u8, c: k as u8 }, |x| if x.a == x.b && x.b == x.c { x.a as i32 } else { -1 }, |x, k| { x.a = k as u8; x.b = k as u8; x.c = k as u8 });
via!(P24, |k| P24 { a: k as u64, b: k as u8, c: k as u64 }, |x| if x.a == x.c && x.b as u64 == x.a { x.a as i32 } else { -1 }, |x, k| { x.a = k as u64; x.b = k as u8; x.c = k as u64 });
via!(String, |k| "x".repeat(k as usize), |x| x.len() as i32, |x, k| *x = "x".repeat(k as usize));
via!(Sh, |k| Sh { s: "x".repeat(k as usize), n: k }, |x| if x.s.len() as i32 == x.n { x.n } else { -1 }, |x, k| { x.s = "x".repeat(k as usize); x.n = k });
via!(En, |k| En { repr: k as u16 }, |x| x.repr as i32, |x, k| x.repr = k as u16);
via!(Op, |k| Op(k), |x| x.val(), |x, k| x.set(k));
via!(Big, |k| Big([k as u64; 5], k), |x| x.val(), |x, k| x.set(k));
via!(Zst, |_| Zst, |x| x.val(), |x, k| x.set(k));
via!(ZstA, |_| ZstA, |x| x.val(), |x, k| x.set(k));

fn look<T: V>(s: &[T]) -> Look {
    let addr = s.as_ptr() as usize;
    let ok = addr != 0 && addr % std::mem::align_of::<T>() == 0;
    Look { addr, len: s.len(), sum: if ok { s.iter().enumerate().map(|(i, x)| (i as i64 + 1) * x.v() as i64).sum() } else { 0 }, ok }
}
macro_rules! fns { ($($l:ident $p:ident $s:ident $m:ident $v:ident $t:ty;)*) => {$(
    fn $l(s: &[$t]) -> Look { look(s) }
    fn $p(s: &mut [$t], i: usize, k: i32) { s[i].s(k) }
    fn $s(s: &[$t], a: usize, b: usize) -> &[$t] { &s[a..b] }
    fn $m(s: &mut [$t], a: usize, b: usize) -> &mut [$t] { &mut s[a..b] }
    fn $v(n: usize) -> Vec<$t> { (0..n as i32).map(|k| <$t>::mk(k % 7 + 1)).collect() }
)*} }
fns! {
    look_u8 poke_u8 sub_u8 submut_u8 vec_u8 u8;
    look_u16 poke_u16 sub_u16 submut_u16 vec_u16 u16;
    look_u64 poke_u64 sub_u64 submut_u64 vec_u64 u64;
    look_f32 poke_f32 sub_f32 submut_f32 vec_f32 f32;
    look_bool poke_bool sub_bool submut_bool vec_bool bool;
    look_p3 poke_p3 sub_p3 submut_p3 vec_p3 P3;
    look_p24 poke_p24 sub_p24 submut_p24 vec_p24 P24;
    look_string poke_string sub_string submut_string vec_string String;
    look_sh poke_sh sub_sh submut_sh vec_sh Sh;
    look_en poke_en sub_en submut_en vec_en En;
    look_op poke_op sub_op submut_op vec_op Op;
    look_big poke_big sub_big submut_big vec_big Big;
    look_zst poke_zst sub_zst submut_zst vec_zst Zst;
    look_zsta poke_zsta sub_zsta submut_zsta vec_zsta ZstA;
}
