#!/usr/bin/env python3
# Writes src/c07.rs (C07: CxxVector) from the list of element kinds.
P = ["u8","u16","u32","u64","usize","i8","i16","i32","i64","isize","f32","f64"]
K = [(p,p,p) for p in P] + [("CxxString","string","&CxxString"),("Sh","sh","Sh"),("P3","p3","P3"),("En","en","En"),("Obj","obj","&Obj"),("Tracked","tracked","Tracked")]
o=[]; w=o.append
w('''//! Generated by gen_c07.py.
//! C07: CxxVector of every kind of element against a reference Vec<i32>.
use crate::engine::{rust_system, System};
use crate::ensure;
use cxx::{CxxString, CxxVector, UniquePtr};
use std::pin::Pin;

#[cxx::bridge(namespace = "c07")]
mod ffi {
    #[derive(Debug, Clone, PartialEq)]
    struct Sh {
        s: String,
        n: i32,
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    struct P3 {
        a: u8,
        b: u8,
        c: u8,
    }
    #[repr(i16)]
    #[derive(Debug)]
    enum En {
        A = 0,
        B = 1,
        C = 32767,
        D = -32768,
    }
    struct Look {
        len: usize,
        addr: usize,
        hash: u64,
        ok: bool,
    }
    unsafe extern "C++" {
        include!("rt/cc/c07.hpp");
        type Obj;
        type Tracked = crate::c07::Tracked;
        fn oval(self: &Obj) -> i32;
        fn oset(self: Pin<&mut Obj>, k: i32);
        fn live() -> i64;
        fn bad() -> bool;
        fn string_set(s: Pin<&mut CxxString>, k: i32);
        fn tracked_mk(k: i32) -> Tracked;''')
for T,n,_ in K:
    w(f'''        fn cpush_{n}(v: Pin<&mut CxxVector<{T}>>, k: i32);
        fn cresize_{n}(v: Pin<&mut CxxVector<{T}>>, n: usize);
        fn cerase_{n}(v: Pin<&mut CxxVector<{T}>>);
        fn cswap_{n}(a: Pin<&mut CxxVector<{T}>>, b: Pin<&mut CxxVector<{T}>>);
        fn ccopy_{n}(a: Pin<&mut CxxVector<{T}>>, b: &CxxVector<{T}>);
        fn cmake_{n}(n: usize) -> UniquePtr<CxxVector<{T}>>;
        fn clook_{n}(v: &CxxVector<{T}>) -> Look;
        fn cat_{n}(v: &CxxVector<{T}>, i: usize) -> usize;
        fn crefl_{n}(v: Pin<&mut CxxVector<{T}>>) -> Pin<&mut CxxVector<{T}>>;''')
w('''    }
    impl CxxVector<Tracked> {}
}
use ffi::{En, Obj, P3, Sh};
type R<T = ()> = Result<T, String>;
const TEXTS: [&str; 4] = ["", "one", "a text longer than any small string buffer", "\\u{1f980}"];
#[repr(C)]
#[derive(Debug)]
pub struct Tracked {
    id: u64,
    val: i32,
    pad: i32,
}
unsafe impl cxx::ExternType for Tracked {
    type Id = cxx::type_id!("c07::Tracked");
    type Kind = cxx::kind::Trivial;
}
unsafe extern "C" {
    fn vk7_drop(id: u64);
}
impl Drop for Tracked {
    fn drop(&mut self) {
        unsafe { vk7_drop(self.id) }
    }
}
impl std::fmt::Debug for Obj {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Obj{}", self.oval())
    }
}
trait Elem: cxx::vector::VectorElement + std::fmt::Debug + 'static {
    fn val(&self) -> i32;
    fn set(self: Pin<&mut Self>, k: i32);
    fn cpush(v: Pin<&mut CxxVector<Self>>, k: i32);
    fn cresize(v: Pin<&mut CxxVector<Self>>, n: usize);
    fn cerase(v: Pin<&mut CxxVector<Self>>);
    fn cswap(a: Pin<&mut CxxVector<Self>>, b: Pin<&mut CxxVector<Self>>);
    fn ccopy(a: Pin<&mut CxxVector<Self>>, b: &CxxVector<Self>);
    fn cmake(n: usize) -> UniquePtr<CxxVector<Self>>;
    fn clook(v: &CxxVector<Self>) -> ffi::Look;
    fn cat(v: &CxxVector<Self>, i: usize) -> usize;
    fn crefl(v: Pin<&mut CxxVector<Self>>) -> Pin<&mut CxxVector<Self>>;
    const LEDGER: bool = false;
    /// Operations that need the element by value.
    fn by_value(_v: &mut UniquePtr<CxxVector<Self>>, _m: &mut Vec<i32>, _op: ByVal) -> R<bool> { Ok(false) }
    fn slices(_v: &mut UniquePtr<CxxVector<Self>>, _m: &[i32]) -> R { Ok(()) }
    fn push_to_both(_v: &mut UniquePtr<CxxVector<Self>>) {}
}
#[derive(Clone, Copy, Debug)]
pub enum ByVal { Push(i32), Pop, PopToOwn, Reverse, SwapEnds }
macro_rules! common {
    ($cpush:ident $cresize:ident $cerase:ident $cswap:ident $ccopy:ident $cmake:ident $clook:ident $cat:ident $crefl:ident) => {
        fn cpush(v: Pin<&mut CxxVector<Self>>, k: i32) { ffi::$cpush(v, k) }
        fn cresize(v: Pin<&mut CxxVector<Self>>, n: usize) { ffi::$cresize(v, n) }
        fn cerase(v: Pin<&mut CxxVector<Self>>) { ffi::$cerase(v) }
        fn cswap(a: Pin<&mut CxxVector<Self>>, b: Pin<&mut CxxVector<Self>>) { ffi::$cswap(a, b) }
        fn ccopy(a: Pin<&mut CxxVector<Self>>, b: &CxxVector<Self>) { ffi::$ccopy(a, b) }
        fn cmake(n: usize) -> UniquePtr<CxxVector<Self>> { ffi::$cmake(n) }
        fn clook(v: &CxxVector<Self>) -> ffi::Look { ffi::$clook(v) }
        fn cat(v: &CxxVector<Self>, i: usize) -> usize { ffi::$cat(v, i) }
        fn crefl(v: Pin<&mut CxxVector<Self>>) -> Pin<&mut CxxVector<Self>> { ffi::$crefl(v) }
    };
}
macro_rules! trivial {
    ($mk:expr) => {
        fn by_value(v: &mut UniquePtr<CxxVector<Self>>, m: &mut Vec<i32>, op: ByVal) -> R<bool> {
            let mk: fn(i32) -> Self = $mk;
            match op {
                ByVal::Push(k) => {
                    v.pin_mut().push(mk(k));
                    m.push(k);
                }
                ByVal::Pop => {
                    let x = v.pin_mut().pop();
                    ensure!(x.as_ref().map(|x| x.val()) == m.pop());
                }
                ByVal::PopToOwn => {
                    // keep the popped values alive together, put them back reversed
                    let (a, b) = (v.pin_mut().pop(), v.pin_mut().pop());
                    let (p, q) = (m.pop(), m.pop());
                    ensure!(a.as_ref().map(|x| x.val()) == p && b.as_ref().map(|x| x.val()) == q);
                    for (x, k) in [(a, p), (b, q)] {
                        if let Some(x) = x {
                            v.pin_mut().push(x);
                            m.push(k.unwrap());
                        }
                    }
                }
                ByVal::Reverse => {
                    v.pin_mut().as_mut_slice().reverse();
                    m.reverse();
                }
                ByVal::SwapEnds => {
                    // two disjoint exclusive elements held at once
                    let n = m.len();
                    if n < 2 {
                        return Ok(false);
                    }
                    let mut it: Vec<Pin<&mut Self>> = v.pin_mut().iter_mut().collect();
                    let (a, b) = it.split_at_mut(n - 1);
                    unsafe { std::mem::swap(a[0].as_mut().get_unchecked_mut(), b[0].as_mut().get_unchecked_mut()) };
                    m.swap(0, n - 1);
                }
            }
            Ok(true)
        }
        fn slices(v: &mut UniquePtr<CxxVector<Self>>, m: &[i32]) -> R {
            let s = v.as_slice();
            ensure!(s.len() == m.len() && s.iter().map(|x| x.val()).eq(m.iter().copied()));
            let p = s.as_ptr() as usize;
            ensure!(p % std::mem::align_of::<Self>() == 0 && p != 0);
            ensure!(m.is_empty() || p == Self::cat(v, 0));
            ensure!(format!("{:?}", &**v) == format!("{:?}", v.as_slice()));
            let s = v.pin_mut().as_mut_slice();
            ensure!(s.len() == m.len() && (m.is_empty() || s.as_ptr() as usize == p));
            Ok(())
        }
    };
}''')
def common(n): return "    common!(" + " ".join(f"{x}_{n}" for x in "cpush cresize cerase cswap ccopy cmake clook cat crefl".split()) + ");"
for p in P:
    neg = "-1.5" if p[0]=="f" else f"{p}::MIN" if p[0]=="i" else f"{p}::MAX - 1"
    vals = f"[0 as {p}, 1 as {p}, {p}::MAX, {neg}]"
    w(f'''impl Elem for {p} {{
{common(p)}
    fn val(&self) -> i32 {{ {vals}.iter().position(|x| x == self).map_or(-1, |x| x as i32) }}
    fn set(self: Pin<&mut Self>, k: i32) {{ *self.get_mut() = {vals}[k as usize]; }}
    trivial!(|k| {vals}[k as usize]);
}}''')
w(f'''impl Elem for CxxString {{
{common("string")}
    fn val(&self) -> i32 {{ TEXTS.iter().position(|x| x.as_bytes() == self.as_bytes()).map_or(-1, |x| x as i32) }}
    fn set(self: Pin<&mut Self>, k: i32) {{ ffi::string_set(self, k) }}
}}
impl Elem for Sh {{
{common("sh")}
    fn val(&self) -> i32 {{ if TEXTS.get(self.n as usize) == Some(&&*self.s) {{ self.n }} else {{ -1 }} }}
    fn set(self: Pin<&mut Self>, k: i32) {{ *self.get_mut() = Sh {{ s: TEXTS[k as usize].to_owned(), n: k }}; }}
    trivial!(|k| Sh {{ s: TEXTS[k as usize].to_owned(), n: k }});
}}
impl Elem for P3 {{
{common("p3")}
    fn val(&self) -> i32 {{ if self.a == self.b && self.b == self.c {{ self.a as i32 }} else {{ -1 }} }}
    fn set(self: Pin<&mut Self>, k: i32) {{ let k = k as u8; *self.get_mut() = P3 {{ a: k, b: k, c: k }}; }}
    trivial!(|k| {{ let k = k as u8; P3 {{ a: k, b: k, c: k }} }});
}}
const ENS: [En; 4] = [En::A, En::B, En::C, En::D];
impl Elem for En {{
{common("en")}
    fn val(&self) -> i32 {{ ENS.iter().position(|x| x == self).map_or(-1, |x| x as i32) }}
    fn set(self: Pin<&mut Self>, k: i32) {{ *self.get_mut() = ENS[k as usize]; }}
    trivial!(|k| ENS[k as usize]);
}}
impl Elem for Obj {{
{common("obj")}
    fn val(&self) -> i32 {{ self.oval() }}
    fn set(self: Pin<&mut Self>, k: i32) {{ self.oset(k) }}
    const LEDGER: bool = true;
}}
impl Elem for Tracked {{
{common("tracked")}
    fn val(&self) -> i32 {{ self.val }}
    fn set(self: Pin<&mut Self>, k: i32) {{ self.get_mut().val = k }}
    const LEDGER: bool = true;
    trivial!(|k| ffi::tracked_mk(k));
}}''')
w('''
#[derive(Clone, Copy, Debug)]
enum Op {
    New(usize),
    CMake(usize, usize),
    B(usize, ByVal),
    CPush(usize, i32),
    Set(usize, usize, i32),
    SetLast(usize, i32),
    SetAll(usize),
    CResize(usize, usize),
    CErase(usize),
    CCopy(usize),
    CSwap,
    RustSwap,
    Leak(usize),
}
use Op::*;
fn ops() -> Vec<Op> {
    let mut v = vec![CSwap, RustSwap];
    for i in 0..2 {
        v.extend([
            New(i), CMake(i, 0), CMake(i, 3), B(i, ByVal::Push(1)), B(i, ByVal::Push(2)), B(i, ByVal::Push(3)),
            B(i, ByVal::Pop), B(i, ByVal::PopToOwn), B(i, ByVal::Reverse), B(i, ByVal::SwapEnds), CPush(i, 0), CPush(i, 2), CPush(i, 3),
            Set(i, 0, 3), Set(i, 1, 2), SetLast(i, 1), SetAll(i), CResize(i, 0), CResize(i, 2), CErase(i), CCopy(i), Leak(i),
        ]);
    }
    v
}
const MAX: usize = 5;
fn agree<T: Elem>(v: &mut UniquePtr<CxxVector<T>>, m: &[i32]) -> R {
    let n = m.len();
    let r: &CxxVector<T> = v.as_ref().unwrap();
    ensure!(r.len() == n && r.is_empty() == (n == 0));
    for i in 0..n {
        ensure!(r.get(i).map(|x| x.val()) == Some(m[i]), "{:?}", r.get(i));
        ensure!(r.get(i).unwrap() as *const T as usize == T::cat(r, i));
        ensure!(unsafe { r.get_unchecked(i) } as *const T as usize == T::cat(r, i));
    }
    for i in [n, n + 1, n + 100, usize::MAX / 2, usize::MAX] {
        ensure!(r.get(i).is_none());
    }
    let l = T::clook(r);
    let mut h = 7u64;
    for x in m {
        h = h.wrapping_mul(31).wrapping_add(*x as u64);
    }
    ensure!(l.ok && l.len == n && l.hash == h && l.addr == r as *const CxxVector<T> as usize);
    // both ways of getting an iterator, remaining lengths at every step
    for k in 0..2 {
        let mut it = if k == 0 { r.iter() } else { r.into_iter() };
        for i in 0..n {
            ensure!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)));
            ensure!(it.next().map(|x| x.val()) == Some(m[i]));
        }
        for _ in 0..3 {
            ensure!(it.len() == 0 && it.size_hint() == (0, Some(0)) && it.next().is_none());
        }
    }
    for i in 0..=n {
        // resumed in the middle
        ensure!(r.iter().skip(i).map(|x| x.val()).eq(m[i..].iter().copied()));
        ensure!(r.iter().nth(i).map(|x| x.val()) == m.get(i).copied());
    }
    ensure!(r.iter().count() == n && r.iter().last().map(|x| x.val()) == m.last().copied());
    ensure!(format!("{:?}", r) == format!("{:?}", r.iter().collect::<Vec<_>>()));
    ensure!(format!("{:?}", v) == format!("{:?}", &**v));
    for i in [n, n + 1, usize::MAX] {
        ensure!(v.pin_mut().index_mut(i).is_none());
    }
    for i in 0..n {
        let at = T::cat(v, i);
        let p = v.pin_mut().index_mut(i).unwrap();
        ensure!(p.val() == m[i] && &*p as *const T as usize == at);
        let p = unsafe { v.pin_mut().index_unchecked_mut(i) };
        ensure!(p.val() == m[i] && &*p as *const T as usize == at);
    }
    for k in 0..2 {
        let mut it = if k == 0 { v.pin_mut().iter_mut() } else { v.pin_mut().into_iter() };
        for i in 0..n {
            ensure!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)));
            ensure!(it.next().map(|x| x.val()) == Some(m[i]));
        }
        for _ in 0..3 {
            ensure!(it.len() == 0 && it.size_hint() == (0, Some(0)) && it.next().is_none());
        }
    }
    // all elements exclusively at once, no two the same
    let mut all: Vec<usize> = v.pin_mut().iter_mut().map(|p| &*p as *const T as usize).collect();
    all.dedup();
    ensure!(all.len() == n);
    T::slices(v, m)
}
fn history<T: Elem>(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> R<bool> {
    let live0 = ffi::live();
    {
        let mut v = [CxxVector::<T>::new(), T::cmake(2)];
        let mut m: [Vec<i32>; 2] = [vec![], vec![0, 1]];
        for o in t {
            match all[*o as usize] {
                New(i) => {
                    v[i] = CxxVector::new();
                    m[i].clear();
                }
                CMake(i, n) => {
                    v[i] = T::cmake(n);
                    m[i] = (0..n as i32).map(|k| k % 4).collect();
                }
                B(i, op) => {
                    let [p, q] = &mut m;
                    if !T::by_value(&mut v[i], if i == 0 { p } else { q }, op)? {
                        return Ok(false);
                    }
                }
                CPush(i, k) => {
                    T::cpush(v[i].pin_mut(), k);
                    m[i].push(k);
                }
                Set(i, at, k) => {
                    let p = v[i].pin_mut().index_mut(at);
                    ensure!(p.is_some() == (at < m[i].len()));
                    match p {
                        None => return Ok(false),
                        Some(p) => p.set(k),
                    }
                    m[i][at] = k;
                }
                SetLast(i, k) => {
                    let n = m[i].len();
                    if n == 0 {
                        return Ok(false);
                    }
                    v[i].pin_mut().iter_mut().last().unwrap().set(k);
                    m[i][n - 1] = k;
                }
                SetAll(i) => {
                    for (j, p) in v[i].pin_mut().iter_mut().enumerate() {
                        p.set((j % 3) as i32 + 1);
                        m[i][j] = (j % 3) as i32 + 1;
                    }
                }
                CResize(i, n) => {
                    T::cresize(v[i].pin_mut(), n);
                    m[i].resize(n, 0);
                }
                CErase(i) => {
                    T::cerase(T::crefl(v[i].pin_mut()));
                    if !m[i].is_empty() {
                        m[i].remove(0);
                    }
                }
                CCopy(i) => {
                    let [p, q] = &mut v;
                    let (d, f) = if i == 0 { (p, q) } else { (q, p) };
                    T::ccopy(d.pin_mut(), f);
                    m[i] = m[1 - i].clone();
                }
                CSwap => {
                    let [p, q] = &mut v;
                    T::cswap(p.pin_mut(), q.pin_mut());
                    m.swap(0, 1);
                }
                RustSwap => {
                    v.swap(0, 1);
                    m.swap(0, 1);
                }
                Leak(i) => {
                    // into_raw / from_raw keeps the vector
                    let p = std::mem::replace(&mut v[i], UniquePtr::null());
                    ensure!(v[i].is_null());
                    v[i] = unsafe { UniquePtr::from_raw(p.into_raw()) };
                }
            }
            if m.iter().any(|x| x.len() > MAX) {
                return Ok(false);
            }
        }
        for i in 0..2 {
            agree(&mut v[i], &m[i])?;
            key.extend(m[i].iter().map(|x| *x as u8));
            key.push(b'|');
        }
        ensure!(!ffi::bad());
        ensure!(ffi::live() - live0 == if T::LEDGER { (m[0].len() + m[1].len()) as i64 } else { 0 });
    }
    ensure!(ffi::live() == live0 && !ffi::bad());
    Ok(true)
}
fn system<T: Elem>(name: &str) -> System {
    let all = ops();
    let names = all.iter().map(|o| format!("{o:?}")).collect();
    rust_system(&format!("vector-{name}"), names, move |t, k| history::<T>(&all, t, k))
}
pub fn systems() -> Vec<System> {
    vec![''')
for T,n,_ in K: w(f'        system::<{T}>("{n}"),')
w('''    ]
}''')
open("src/c07.rs","w").write("\n".join(o)+"\n")
h=open("cc/c07.hpp","w")
h.write('''// Generated by gen_c07.py.
#pragma once
#include "rust/cxx.h"
#include <memory>
#include <string>
#include <vector>
extern "C" {
std::uint64_t vk7_new();
void vk7_drop(std::uint64_t);
}
namespace c07 {
struct Sh;
struct P3;
enum class En : std::int16_t;
struct Look;
struct Base {
  std::uint64_t id;
  std::int32_t val;
  std::int32_t pad = 0;
  Base(int v = 0) : id(vk7_new()), val(v) {}
  Base(const Base &o) : id(vk7_new()), val(o.val) {}
  Base(Base &&o) noexcept : id(o.id), val(o.val) {
    o.id = 0;
    o.val = -7;
  }
  Base &operator=(const Base &o) {
    val = o.val;
    return *this;
  }
  Base &operator=(Base &&o) noexcept {
    std::swap(id, o.id);
    std::swap(val, o.val);
    return *this;
  }
  ~Base() {
    vk7_drop(id);
    id = 0xdead0000dead;
  }
};
struct Tracked : Base {
  using IsRelocatable = std::true_type;
  using Base::Base;
};
struct Obj : Base { // not movable by Rust: knows its own address
  const Obj *self = this;
  using Base::Base;
  Obj() = default;
  Obj(const Obj &o) : Base(o) {}
  Obj(Obj &&o) noexcept : Base(std::move(o)) {}
  Obj &operator=(const Obj &o) {
    Base::operator=(o);
    return *this;
  }
  Obj &operator=(Obj &&o) noexcept {
    Base::operator=(std::move(o));
    return *this;
  }
  std::int32_t oval() const noexcept { return self == this ? val : -2; }
  void oset(std::int32_t k) noexcept { val = k; }
};
std::int64_t live() noexcept;
bool bad() noexcept;
void string_set(std::string &s, std::int32_t k);
Tracked tracked_mk(std::int32_t k);
''')
CT={"usize":"std::size_t","isize":"rust::isize","f32":"float","f64":"double","CxxString":"std::string"}
for T,n,_ in K:
    c=CT.get(T, f"std::{'u' if T[0]=='u' else ''}int{T[1:]}_t" if T in P else T)
    h.write(f'''using V_{n} = std::vector<{c}>;
void cpush_{n}(V_{n} &v, std::int32_t k);
void cresize_{n}(V_{n} &v, std::size_t n);
void cerase_{n}(V_{n} &v);
void cswap_{n}(V_{n} &a, V_{n} &b);
void ccopy_{n}(V_{n} &a, const V_{n} &b);
std::unique_ptr<V_{n}> cmake_{n}(std::size_t n);
Look clook_{n}(const V_{n} &v);
std::size_t cat_{n}(const V_{n} &v, std::size_t i);
V_{n} &crefl_{n}(V_{n} &v);
''')
h.write("} // namespace c07\n")
h.close()
c=open("cc/c07.cc","w")
c.write('''// Generated by gen_c07.py.
#include "rt/cc/c07.hpp"
#include "rt/src/c07.rs.h"
#include <limits>
#include <set>
namespace c07 {
static std::set<std::uint64_t> *ids = new std::set<std::uint64_t>();
static std::uint64_t next_id = 1;
static std::int64_t nlive = 0;
static bool isbad = false;
std::int64_t live() noexcept { return nlive; }
bool bad() noexcept { return isbad; }
static const char *texts[] = {
    "", "one", "a text longer than any small string buffer", "\\xf0\\x9f\\xa6\\x80"};
void string_set(std::string &s, std::int32_t k) { s = texts[k]; }
Tracked tracked_mk(std::int32_t k) { return Tracked(k); }
template <typename T> struct Tr {
  static T mk(int k) {
    using L = std::numeric_limits<T>;
    switch (k) {
    case 0: return T(0);
    case 1: return T(1);
    case 2: return L::max();
    default: return std::is_floating_point<T>::value ? T(-1.5) : std::is_signed<T>::value ? L::min() : T(L::max() - 1);
    }
  }
  static bool eq(const T &x, const T &y) { return x == y; }
};
template <> struct Tr<std::string> {
  static std::string mk(int k) { return texts[k]; }
  static bool eq(const std::string &x, const std::string &y) { return x == y; }
};
template <> struct Tr<Sh> {
  static Sh mk(int k) { return Sh{texts[k], k}; }
  static bool eq(const Sh &x, const Sh &y) { return std::string(x.s) == std::string(y.s) && x.n == y.n; }
};
template <> struct Tr<P3> {
  static P3 mk(int k) { auto c = static_cast<std::uint8_t>(k); return P3{c, c, c}; }
  static bool eq(const P3 &x, const P3 &y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
};
template <> struct Tr<En> {
  static En mk(int k) { const En e[] = {En::A, En::B, En::C, En::D}; return e[k]; }
  static bool eq(En x, En y) { return x == y; }
};
template <> struct Tr<Obj> {
  static Obj mk(int k) { return Obj(k); }
  static bool eq(const Obj &x, const Obj &y) { return x.oval() == y.val; }
};
template <> struct Tr<Tracked> {
  static Tracked mk(int k) { return Tracked(k); }
  static bool eq(const Tracked &x, const Tracked &y) { return x.val == y.val; }
};
template <typename T> void push(std::vector<T> &v, int k) { v.push_back(Tr<T>::mk(k)); }
template <typename T> void resize(std::vector<T> &v, std::size_t n) {
  while (v.size() > n) v.pop_back();
  while (v.size() < n) v.push_back(Tr<T>::mk(0));
}
template <typename T> void erase(std::vector<T> &v) { if (!v.empty()) v.erase(v.begin()); }
template <typename T> std::unique_ptr<std::vector<T>> make(std::size_t n) {
  auto p = std::make_unique<std::vector<T>>();
  for (std::size_t i = 0; i < n; i++) push(*p, int(i % 4));
  return p;
}
template <typename T> Look look(const std::vector<T> &v) {
  Look l;
  l.len = v.size();
  l.addr = reinterpret_cast<std::size_t>(&v);
  l.hash = 7;
  l.ok = true;
  for (auto &x : v) {
    int f = -1;
    for (int k = 3; k >= 0; k--) if (Tr<T>::eq(x, Tr<T>::mk(k))) f = k;
    if (f < 0) l.ok = false;
    l.hash = l.hash * 31 + static_cast<std::uint64_t>(f);
  }
  return l;
}
''')
for T,n,_ in K:
    c.write(f'''void cpush_{n}(V_{n} &v, std::int32_t k) {{ push(v, k); }}
void cresize_{n}(V_{n} &v, std::size_t n) {{ resize(v, n); }}
void cerase_{n}(V_{n} &v) {{ erase(v); }}
void cswap_{n}(V_{n} &a, V_{n} &b) {{ a.swap(b); }}
void ccopy_{n}(V_{n} &a, const V_{n} &b) {{ V_{n} t; for (auto &x : b) t.push_back(%s); a = std::move(t); }}
std::unique_ptr<V_{n}> cmake_{n}(std::size_t n) {{ return make<V_{n}::value_type>(n); }}
Look clook_{n}(const V_{n} &v) {{ return look(v); }}
std::size_t cat_{n}(const V_{n} &v, std::size_t i) {{ return reinterpret_cast<std::size_t>(&v[i]); }}
V_{n} &crefl_{n}(V_{n} &v) {{ return v; }}
''' % "x")
c.write('''} // namespace c07
extern "C" {
std::uint64_t vk7_new() {
  c07::nlive++;
  c07::ids->insert(c07::next_id);
  return c07::next_id++;
}
void vk7_drop(std::uint64_t id) {
  if (id == 0)
    return;
  if (!c07::ids->erase(id))
    c07::isbad = true;
  else
    c07::nlive--;
}
}
''')
c.close()
