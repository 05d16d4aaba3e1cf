#!/usr/bin/env python3
# Writes src/c08.rs, cc/c08.hpp and cc/c08.cc (C08: UniquePtr, SharedPtr, WeakPtr).
P = ["bool","u8","u16","u32","u64","usize","i8","i16","i32","i64","isize","f32","f64"]
# (rust type, tag, trivial, ledger, comparable, display)
U = [("Obj","obj",0,1,1,1),("Poly","poly",0,1,1,1),("Sh","sh",1,0,1,0),("P3","p3",1,0,1,0),("En","en",1,0,1,0),("Tracked","tracked",1,1,1,1),("TrackedA","trackeda",1,1,1,1),
     ("CxxString","string",0,0,1,1),("CxxVector<i32>","vi32",0,0,0,0),("CxxVector<CxxString>","vstring",0,0,0,0),("CxxVector<Sh>","vsh",0,0,0,0),("CxxVector<Obj>","vobj",0,1,0,0)]
S = [u for u in U if not u[0].startswith("CxxVector")] + [(p,p,1,0,1,1) for p in P]
CT={"usize":"std::size_t","isize":"rust::isize","f32":"float","f64":"double","bool":"bool","CxxString":"std::string"}
def ct(T):
    if T.startswith("CxxVector<"): return f"std::vector<{ct(T[10:-1])}>"
    if T in CT: return CT[T]
    if T in P: return f"std::{'u' if T[0]=='u' else ''}int{T[1:]}_t"
    return T
o=[]; w=o.append
w('''//! Generated by gen_c08.py.
//! C08: UniquePtr, SharedPtr, WeakPtr against an ownership model.
use crate::engine::{panics, rust_system, System};
use crate::ensure;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::{IoSlice, Read, Seek, SeekFrom, Write};
use std::pin::Pin;

#[cxx::bridge(namespace = "c08")]
mod ffi {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct Sh {
        n: i32,
        s: String,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct P3 {
        a: u8,
        b: u8,
        c: u8,
    }
    #[repr(i16)]
    #[derive(Debug, PartialOrd, Ord, Hash)]
    enum En {
        A = 0,
        B = 1,
        C = 2,
        D = 32767,
    }
    struct Look {
        null: bool,
        val: i32,
        addr: usize,
    }
    unsafe extern "C++" {
        include!("rt/cc/c08.hpp");
        type Obj;
        type Poly;
        type Tracked = crate::c08::Tracked;
        type TrackedA = crate::c08::TrackedA;
        fn oval(self: &Obj) -> i32;
        fn oset(self: Pin<&mut Obj>, k: i32);
        fn pval(self: &Poly) -> i32;
        fn pset(self: Pin<&mut Poly>, k: i32);
        fn live() -> i64;
        fn bad() -> bool;
        fn own_news() -> i64;
        fn string_set(s: Pin<&mut CxxString>, k: i32);
        fn tracked_mk(k: i32) -> Tracked;
        fn vobj_set(s: Pin<&mut CxxVector<Obj>>, k: i32);
        fn vobj_val(s: &CxxVector<Obj>) -> i32;
        fn vstring_set(s: Pin<&mut CxxVector<CxxString>>, k: i32);''')
for T,n,*_ in U:
    w(f'''        fn umake_{n}(k: i32) -> UniquePtr<{T}>;
        fn utake_{n}(p: UniquePtr<{T}>) -> i32;
        fn uecho_{n}(p: UniquePtr<{T}>) -> UniquePtr<{T}>;
        fn ureset_{n}(p: &mut UniquePtr<{T}>, k: i32);
        fn ulook_{n}(p: &UniquePtr<{T}>) -> Look;''')
for T,n,*_ in S:
    w(f'''        fn smake_{n}(k: i32) -> SharedPtr<{T}>;
        fn stake_{n}(p: SharedPtr<{T}>) -> i32;
        fn secho_{n}(p: SharedPtr<{T}>) -> SharedPtr<{T}>;
        fn sreset_{n}(p: &mut SharedPtr<{T}>, k: i32);
        fn slook_{n}(p: &SharedPtr<{T}>) -> Look;
        fn suse_{n}(p: &SharedPtr<{T}>) -> i64;
        fn salias_{n}(p: &SharedPtr<{T}>) -> SharedPtr<{T}>;
        fn hold_{n}(p: &SharedPtr<{T}>);
        fn held_{n}() -> SharedPtr<{T}>;
        fn wmake_{n}(p: SharedPtr<{T}>) -> WeakPtr<{T}>;
        fn wecho_{n}(p: WeakPtr<{T}>) -> WeakPtr<{T}>;
        fn wlook_{n}(p: &WeakPtr<{T}>) -> Look;''')
w('''    }
    impl UniquePtr<Tracked> {}
    impl SharedPtr<Tracked> {}
    impl WeakPtr<Tracked> {}
    impl UniquePtr<TrackedA> {}
    impl SharedPtr<TrackedA> {}
    impl WeakPtr<TrackedA> {}
}
use ffi::{En, Look, Obj, P3, Poly, Sh};
type R<T = ()> = Result<T, String>;
const TEXTS: [&str; 4] = ["", "one", "a text longer than any small string buffer", "\\u{1f980}"];
#[repr(C)]
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tracked {
    val: i32,
    pad: i32,
    id: u64,
}
#[repr(C, align(32))]
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TrackedA {
    t: Tracked,
}
unsafe impl cxx::ExternType for Tracked {
    type Id = cxx::type_id!("c08::Tracked");
    type Kind = cxx::kind::Trivial;
}
unsafe impl cxx::ExternType for TrackedA {
    type Id = cxx::type_id!("c08::TrackedA");
    type Kind = cxx::kind::Trivial;
}
unsafe extern "C" {
    fn vk8_drop(id: u64);
}
impl Drop for Tracked {
    fn drop(&mut self) {
        unsafe { vk8_drop(self.id) }
    }
}
macro_rules! by_val {
    ($($t:ident)*) => {$(
        impl Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "<{}>", self.val()) } }
    )*};
}
by_val!(Obj Poly Tracked TrackedA);
macro_rules! opaque_cmp {
    ($($t:ident)*) => {$(
        impl Debug for $t { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}({})", stringify!($t), self.val()) } }
        impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.val() == o.val() } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.val().cmp(&o.val()) } }
        impl Hash for $t { fn hash<H: Hasher>(&self, h: &mut H) { self.val().hash(h) } }
    )*};
}
opaque_cmp!(Obj Poly);
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// What the value kinds have in common.  Values are numbered 0..4.
trait Val: Sized + 'static {
    const NVAL: i32 = 4;
    const LEDGER: bool = false;
    fn val(&self) -> i32;
    fn set(self: Pin<&mut Self>, k: i32);
    const TRIVIAL: bool = false;
    const TYPENAME: &'static str;
}
trait U: Val + cxx::memory::UniquePtrTarget {
    fn umake(k: i32) -> UniquePtr<Self>;
    fn utake(p: UniquePtr<Self>) -> i32;
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self>;
    fn ureset(p: &mut UniquePtr<Self>, k: i32);
    fn ulook(p: &UniquePtr<Self>) -> Look;
    fn unew(_k: i32) -> UniquePtr<Self> { unreachable!() }
    fn deref_mut_set(_p: &mut UniquePtr<Self>, _k: i32) -> bool { false }
    fn ucmp(_a: &UniquePtr<Self>, _b: &UniquePtr<Self>) -> R { Ok(()) }
    fn ufmt(_a: &UniquePtr<Self>) -> R { Ok(()) }
}
trait S: Val + cxx::memory::SharedPtrTarget + cxx::memory::WeakPtrTarget {
    fn smake(k: i32) -> SharedPtr<Self>;
    fn stake(p: SharedPtr<Self>) -> i32;
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self>;
    fn sreset(p: &mut SharedPtr<Self>, k: i32);
    fn slook(p: &SharedPtr<Self>) -> Look;
    fn suse(p: &SharedPtr<Self>) -> i64;
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self>;
    fn hold(p: &SharedPtr<Self>);
    fn held() -> SharedPtr<Self>;
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self>;
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self>;
    fn wlook(p: &WeakPtr<Self>) -> Look;
    fn snew(_k: i32) -> SharedPtr<Self> { unreachable!() }
    fn scmp(_a: &SharedPtr<Self>, _b: &SharedPtr<Self>) -> R { Ok(()) }
    fn sfmt(_a: &SharedPtr<Self>, _w: &WeakPtr<Self>) -> R { Ok(()) }
}
macro_rules! cmp_body {
    ($a:ident $b:ident) => {{
        let (x, y) = ($a.as_ref(), $b.as_ref());
        ensure!(($a == $b) == (x == y) && ($a != $b) == (x != y));
        ensure!($a.partial_cmp($b) == x.partial_cmp(&y));
        ensure!(($a < $b) == (x < y) && ($a <= $b) == (x <= y) && ($a > $b) == (x > y) && ($a >= $b) == (x >= y));
        Ok(())
    }};
}
macro_rules! ord_body {
    ($a:ident $b:ident) => {{
        let (x, y) = ($a.as_ref(), $b.as_ref());
        ensure!($a.cmp($b) == x.cmp(&y));
        ensure!(hash($a) == hash(&x) && ($a != $b || hash($a) == hash($b)));
    }};
}
macro_rules! fmt_body {
    ($a:ident $f:literal) => {
        match $a.as_ref() {
            None => ensure!(format!($f, $a) == "nullptr"),
            Some(x) => ensure!(format!($f, $a) == format!($f, x)),
        }
    };
}
''')
def val(T):
    if T in P:
        if T=="bool": vals="[false, true, false, true]"
        else:
            neg = "-1.5" if T[0]=="f" else f"{T}::MIN" if T[0]=="i" else f"{T}::MAX - 1"
            vals=f"[0 as {T}, 1 as {T}, {T}::MAX, {neg}]"
        return dict(val=f"{vals}.iter().position(|x| x == self).map_or(-1, |x| x as i32)", set=f"*self.get_mut() = {vals}[k as usize]", mk=f"{vals}[k as usize]", nval=2 if T=="bool" else 4)
    return {
    "Obj":dict(val="self.oval()",set="self.oset(k)"),
    "Poly":dict(val="self.pval()",set="self.pset(k)"),
    "Sh":dict(val="if TEXTS.get(self.n as usize) == Some(&&*self.s) { self.n } else { -1 }",set="*self.get_mut() = Sh { n: k, s: TEXTS[k as usize].to_owned() }",mk="Sh { n: k, s: TEXTS[k as usize].to_owned() }"),
    "P3":dict(val="if self.a == self.b && self.b == self.c { self.a as i32 } else { -1 }",set="{ let k = k as u8; *self.get_mut() = P3 { a: k, b: k, c: k } }",mk="P3 { a: k as u8, b: k as u8, c: k as u8 }"),
    "En":dict(val="[En::A, En::B, En::C, En::D].iter().position(|x| x == self).map_or(-1, |x| x as i32)",set="*self.get_mut() = [En::A, En::B, En::C, En::D][k as usize]",mk="[En::A, En::B, En::C, En::D][k as usize]"),
    "Tracked":dict(val="self.val",set="self.get_mut().val = k",mk="ffi::tracked_mk(k)"),
    "TrackedA":dict(val="if self as *const _ as usize % 32 == 0 { self.t.val } else { -1 }",set="self.get_mut().t.val = k",mk="TrackedA { t: ffi::tracked_mk(k) }"),
    "CxxString":dict(val="TEXTS.iter().position(|x| x.as_bytes() == self.as_bytes()).map_or(-1, |x| x as i32)",set="ffi::string_set(self, k)"),
    "CxxVector<i32>":dict(val="if self.len() == 2 { self.get(1).map_or(-1, |x| *x) } else { -1 }",set="*self.index_mut(1).unwrap() = k"),
    "CxxVector<CxxString>":dict(val="if self.len() == 2 { self.get(1).map_or(-1, |x| x.val()) } else { -1 }",set="ffi::vstring_set(self, k)"),
    "CxxVector<Sh>":dict(val="if self.len() == 2 { self.get(1).map_or(-1, |x| x.val()) } else { -1 }",set="self.index_mut(1).unwrap().set(k)"),
    "CxxVector<Obj>":dict(val="ffi::vobj_val(self)",set="ffi::vobj_set(self, k)"),
    }[T]
seen=set()
for T,n,tr,led,cmp,disp in U+S:
    if T in seen: continue
    seen.add(T)
    v=val(T)
    w(f'''impl Val for {T} {{
    fn val(&self) -> i32 {{ {v["val"]} }}
    fn set(self: Pin<&mut Self>, k: i32) {{ {v["set"]}; }}
    const LEDGER: bool = {"true" if led else "false"};
    const TRIVIAL: bool = {"true" if tr else "false"};
    const NVAL: i32 = {v.get("nval",4)};
    const TYPENAME: &'static str = "{T}";
}}''')
flt=("f32","f64")
for T,n,tr,led,cmp,disp in U:
    v=val(T)
    w(f'''impl U for {T} {{
    fn umake(k: i32) -> UniquePtr<Self> {{ ffi::umake_{n}(k) }}
    fn utake(p: UniquePtr<Self>) -> i32 {{ ffi::utake_{n}(p) }}
    fn uecho(p: UniquePtr<Self>) -> UniquePtr<Self> {{ ffi::uecho_{n}(p) }}
    fn ureset(p: &mut UniquePtr<Self>, k: i32) {{ ffi::ureset_{n}(p, k) }}
    fn ulook(p: &UniquePtr<Self>) -> Look {{ ffi::ulook_{n}(p) }}''')
    if tr: w(f'''    fn unew(k: i32) -> UniquePtr<Self> {{ UniquePtr::new({v["mk"]}) }}
    fn deref_mut_set(p: &mut UniquePtr<Self>, k: i32) -> bool {{ Pin::new(&mut **p).set(k); true }}''')
    if cmp: w('''    fn ucmp(a: &UniquePtr<Self>, b: &UniquePtr<Self>) -> R { ord_body!(a b); cmp_body!(a b) }''')
    w('''    fn ufmt(a: &UniquePtr<Self>) -> R { fmt_body!(a "{:?}"); fmt_body!(a "{:#?}");%s Ok(()) }
}''' % (' fmt_body!(a "{}");' if disp else ""))
for T,n,tr,led,cmp,disp in S:
    v=val(T)
    w(f'''impl S for {T} {{
    fn smake(k: i32) -> SharedPtr<Self> {{ ffi::smake_{n}(k) }}
    fn stake(p: SharedPtr<Self>) -> i32 {{ ffi::stake_{n}(p) }}
    fn secho(p: SharedPtr<Self>) -> SharedPtr<Self> {{ ffi::secho_{n}(p) }}
    fn sreset(p: &mut SharedPtr<Self>, k: i32) {{ ffi::sreset_{n}(p, k) }}
    fn slook(p: &SharedPtr<Self>) -> Look {{ ffi::slook_{n}(p) }}
    fn suse(p: &SharedPtr<Self>) -> i64 {{ ffi::suse_{n}(p) }}
    fn salias(p: &SharedPtr<Self>) -> SharedPtr<Self> {{ ffi::salias_{n}(p) }}
    fn hold(p: &SharedPtr<Self>) {{ ffi::hold_{n}(p) }}
    fn held() -> SharedPtr<Self> {{ ffi::held_{n}() }}
    fn wmake(p: SharedPtr<Self>) -> WeakPtr<Self> {{ ffi::wmake_{n}(p) }}
    fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> {{ ffi::wecho_{n}(p) }}
    fn wlook(p: &WeakPtr<Self>) -> Look {{ ffi::wlook_{n}(p) }}''')
    if tr: w(f'''    fn snew(k: i32) -> SharedPtr<Self> {{ SharedPtr::new({v["mk"]}) }}''')
    w('''    fn scmp(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> R {%s cmp_body!(a b) }''' % ("" if T in flt else " ord_body!(a b);"))
    w('''    fn sfmt(a: &SharedPtr<Self>, w: &WeakPtr<Self>) -> R { let b = w.upgrade(); ensure!(format!("{:?}", w) == format!("{:?}", b)); fmt_body!(b "{:?}"); fmt_body!(a "{:?}"); fmt_body!(a "{:#?}");%s Ok(()) }
}''' % (' fmt_body!(a "{}");' if disp else ""))
w('''
fn message<Q>(f: impl FnOnce() -> Q) -> Option<String> {
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).err()?;
    Some(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}
// ---------------------------------------------------------------- UniquePtr
#[derive(Clone, Copy, Debug)]
enum UOp {
    Null(usize),
    New(usize, i32),
    CMake(usize, i32),
    CMakeNull(usize),
    CTake(usize),
    CEcho(usize),
    CReset(usize, i32),
    CResetNull(usize),
    PinSet(usize, i32),
    AsMutSet(usize, i32),
    PtrSet(usize, i32),
    DerefMutSet(usize, i32),
    Drop(usize),
    IntoRaw(usize),
    FromRaw(usize),
    FromRawNull(usize),
    Move(usize),
    Through(usize),
    Swap,
}
fn uops() -> Vec<UOp> {
    use UOp::*;
    let mut v = vec![Swap];
    for i in 0..2 {
        v.extend([
            Null(i), New(i, 1), New(i, 2), CMake(i, 0), CMake(i, 2), CMakeNull(i), CTake(i), CEcho(i), CReset(i, 3), CResetNull(i),
            PinSet(i, 1), AsMutSet(i, 2), PtrSet(i, 3), DerefMutSet(i, 0), Drop(i), IntoRaw(i), FromRaw(i), FromRawNull(i), Move(i), Through(i),
        ]);
    }
    v
}
fn uhistory<T: U>(all: &[UOp], t: &[u16], key: &mut Vec<u8>) -> R<bool> {
    use UOp::*;
    let live0 = ffi::live();
    let unit = if T::TYPENAME == "CxxVector<Obj>" { 2 } else { 1 };
    let mut news0 = ffi::own_news();
    {
        let mut p: [UniquePtr<T>; 2] = [UniquePtr::null(), UniquePtr::null()];
        let mut m: [Option<i32>; 2] = [None, None];
        let mut at: [*const T; 2] = [std::ptr::null(); 2];
        struct Raw<T: U>(Option<(*mut T, Option<i32>)>);
        impl<T: U> std::ops::Drop for Raw<T> {
            fn drop(&mut self) {
                if let Some((q, _)) = self.0.take() {
                    drop(unsafe { UniquePtr::from_raw(q) });
                }
            }
        }
        let mut rawg = Raw::<T>(None);
        let raw = &mut rawg.0;
        let c = |k: i32| k % T::NVAL;
        for o in t {
            match all[*o as usize] {
                Null(i) => {
                    p[i] = UniquePtr::null();
                    m[i] = None;
                }
                New(i, k) => {
                    if !T::TRIVIAL {
                        return Ok(false);
                    }
                    p[i] = T::unew(c(k));
                    m[i] = Some(c(k));
                    at[i] = p[i].as_ptr();
                }
                CMake(i, k) => {
                    p[i] = T::umake(c(k));
                    m[i] = Some(c(k));
                    at[i] = p[i].as_ptr();
                }
                CMakeNull(i) => {
                    p[i] = T::umake(-1);
                    m[i] = None;
                }
                CTake(i) => {
                    let q = std::mem::replace(&mut p[i], UniquePtr::null());
                    ensure!(T::utake(q) == m[i].unwrap_or(-9));
                    m[i] = None;
                }
                CEcho(i) => {
                    let q = std::mem::replace(&mut p[i], UniquePtr::null());
                    p[i] = T::uecho(q);
                }
                CReset(i, k) => {
                    T::ureset(&mut p[i], c(k));
                    m[i] = Some(c(k));
                    at[i] = p[i].as_ptr();
                }
                CResetNull(i) => {
                    T::ureset(&mut p[i], -1);
                    m[i] = None;
                }
                PinSet(i, k) => match m[i] {
                    None => {
                        let e = message(|| p[i].pin_mut().set(c(k)));
                        ensure!(e == Some(format!("called pin_mut on a null UniquePtr<{}>", T::TYPENAME)), "{:?}", e);
                    }
                    Some(_) => {
                        p[i].pin_mut().set(c(k));
                        m[i] = Some(c(k));
                    }
                },
                AsMutSet(i, k) => match p[i].as_mut() {
                    None => ensure!(m[i].is_none()),
                    Some(x) => {
                        ensure!(m[i].is_some());
                        x.set(c(k));
                        m[i] = Some(c(k));
                    }
                },
                PtrSet(i, k) => {
                    if m[i].is_none() {
                        return Ok(false);
                    }
                    unsafe { Pin::new_unchecked(&mut *p[i].as_mut_ptr()) }.set(c(k));
                    m[i] = Some(c(k));
                }
                DerefMutSet(i, k) => {
                    if !T::TRIVIAL {
                        return Ok(false);
                    }
                    match m[i] {
                        None => {
                            let e = message(|| T::deref_mut_set(&mut p[i], c(k)));
                            ensure!(e == Some(format!("called deref_mut on a null UniquePtr<{}>", T::TYPENAME)), "{:?}", e);
                        }
                        Some(_) => {
                            T::deref_mut_set(&mut p[i], c(k));
                            m[i] = Some(c(k));
                        }
                    }
                }
                Drop(i) => {
                    drop(std::mem::replace(&mut p[i], UniquePtr::null()));
                    m[i] = None;
                }
                IntoRaw(i) => {
                    if raw.is_some() {
                        return Ok(false);
                    }
                    let q = std::mem::replace(&mut p[i], UniquePtr::null()).into_raw();
                    ensure!(q.is_null() == m[i].is_none() && (q.is_null() || q as *const T == at[i]));
                    *raw = Some((q, m[i].take()));
                }
                FromRaw(i) => match raw.take() {
                    None => return Ok(false),
                    Some((q, k)) => {
                        p[i] = unsafe { UniquePtr::from_raw(q) };
                        m[i] = k;
                        at[i] = q;
                    }
                },
                FromRawNull(i) => {
                    p[i] = unsafe { UniquePtr::from_raw(std::ptr::null_mut()) };
                    m[i] = None;
                }
                Move(i) => {
                    p[i] = std::mem::replace(&mut p[1 - i], UniquePtr::null());
                    m[i] = m[1 - i].take();
                    at[i] = at[1 - i];
                }
                Through(i) => {
                    // relocated by Rust through other containers
                    let q = std::mem::replace(&mut p[i], UniquePtr::null());
                    let mut b = Box::new(Some(vec![UniquePtr::null(), q]));
                    p[i] = b.as_mut().as_mut().unwrap().pop().unwrap();
                }
                Swap => {
                    p.swap(0, 1);
                    m.swap(0, 1);
                    at.swap(0, 1);
                }
            }
        }
        let mut n = raw.map_or(0, |r| r.1.is_some() as i64);
        for i in 0..2 {
            let null = m[i].is_none();
            n += !null as i64;
            ensure!(p[i].is_null() == null && p[i].as_ptr().is_null() == null && p[i].as_mut_ptr().is_null() == null);
            ensure!(p[i].as_ref().map(|x| x.val()) == m[i], "{:?} {:?}", p[i].as_ref().map(|x| x.val()), m[i]);
            ensure!(p[i].as_mut().map(|x| x.val()) == m[i]);
            let l = T::ulook(&p[i]);
            ensure!(l.null == null && l.val == m[i].unwrap_or(-9));
            if null {
                let e = message(|| (*p[i]).val());
                ensure!(e == Some(format!("called deref on a null UniquePtr<{}>", T::TYPENAME)), "{:?}", e);
            } else {
                ensure!((*p[i]).val() == m[i].unwrap());
                ensure!(p[i].as_ptr() == at[i] && p[i].as_mut_ptr() as *const T == at[i] && l.addr == at[i] as *const () as usize);
                ensure!(p[i].as_ref().unwrap() as *const T == at[i] && &*p[i] as *const T == at[i]);
                ensure!(&*p[i].pin_mut() as *const T == at[i]);
            }
            T::ufmt(&p[i])?;
            T::ucmp(&p[i], &p[0])?;
            T::ucmp(&p[i], &p[1])?;
            key.push(m[i].map_or(b'-', |k| b'0' + k as u8));
        }
        key.push(raw.map_or(b'-', |r| r.1.map_or(b'n', |k| b'0' + k as u8)));
        ensure!(!ffi::bad());
        ensure!(ffi::live() - live0 == if T::LEDGER { n * unit } else { 0 });
        if T::TYPENAME == "Tracked" {
            // a class's own operator new / delete pair up
            ensure!(ffi::own_news() - news0 == n);
        }
    }
    ensure!(ffi::live() == live0 && !ffi::bad() && ffi::own_news() == news0);
    news0 = 0;
    let _ = news0;
    Ok(true)
}
// -------------------------------------------------- SharedPtr and WeakPtr
#[derive(Clone, Copy, Debug)]
enum SOp {
    SNull(usize),
    SNew(usize, i32),
    SCMake(usize, i32),
    SCMakeNull(usize),
    SClone(usize, usize),
    SCloneFrom(usize, usize),
    STake(usize),
    SEcho(usize),
    SReset(usize, i32),
    SAlias(usize, usize),
    Hold(usize),
    Held(usize),
    Unhold,
    SSwap,
    Downgrade(usize, usize),
    WNull(usize),
    WClone(usize),
    WMake(usize),
    WEcho(usize),
    WDrop(usize),
    Upgrade(usize, usize),
}
fn sops() -> Vec<SOp> {
    use SOp::*;
    let mut v = vec![SSwap, Unhold];
    for i in 0..2 {
        v.extend([SNull(i), SNew(i, 1), SCMake(i, 2), SCMakeNull(i), SClone(i, 1 - i), SCloneFrom(i, 1 - i), STake(i), SEcho(i), SReset(i, 3), SAlias(i, i), SAlias(i, 1 - i), Hold(i), Held(i)]);
        v.extend([WNull(i), WClone(i), WMake(i), WEcho(i), WDrop(i)]);
        for j in 0..2 {
            v.extend([Downgrade(i, j), Upgrade(i, j)]);
        }
    }
    v
}
fn shistory<T: S>(all: &[SOp], t: &[u16], key: &mut Vec<u8>) -> R<bool> {
    use SOp::*;
    let live0 = ffi::live();
    {
        T::hold(&SharedPtr::null()); // left by a history that was not enabled
        // objects are numbered in order of creation
        let mut vals: Vec<i32> = vec![];
        let mut addr: Vec<*const T> = vec![];
        let mut p: [SharedPtr<T>; 2] = [SharedPtr::null(), SharedPtr::null()];
        let mut w: [WeakPtr<T>; 2] = [WeakPtr::null(), WeakPtr::null()];
        let mut m: [Option<usize>; 3] = [None; 3]; // [2]: held by C++
        let mut mw: [Option<usize>; 2] = [None; 2];
        let c = |k: i32| k % T::NVAL;
        macro_rules! made {
            ($i:expr, $k:expr) => {{
                vals.push(c($k));
                addr.push(match p[$i].as_ref() {
                    Some(r) => r as *const T,
                    None => return Err(format!("null after creation")),
                });
                m[$i] = Some(vals.len() - 1);
            }};
        }
        for o in t {
            match all[*o as usize] {
                SNull(i) => {
                    p[i] = SharedPtr::null();
                    m[i] = None;
                }
                SNew(i, k) => {
                    if !T::TRIVIAL {
                        T::hold(&SharedPtr::null());
                        return Ok(false);
                    }
                    p[i] = T::snew(c(k));
                    made!(i, k);
                }
                SCMake(i, k) => {
                    p[i] = T::smake(c(k));
                    made!(i, k);
                }
                SCMakeNull(i) => {
                    p[i] = T::smake(-1);
                    m[i] = None;
                }
                SClone(i, j) => {
                    p[i] = p[j].clone();
                    m[i] = m[j];
                }
                SCloneFrom(i, j) => {
                    let [a, b] = &mut p;
                    let (d, f) = if i == 0 { (a, b) } else { (b, a) };
                    d.clone_from(f);
                    m[i] = m[j];
                }
                STake(i) => {
                    let q = std::mem::replace(&mut p[i], SharedPtr::null());
                    ensure!(T::stake(q) == m[i].map_or(-9, |o| vals[o]));
                    m[i] = None;
                }
                SEcho(i) => {
                    let q = std::mem::replace(&mut p[i], SharedPtr::null());
                    p[i] = T::secho(q);
                }
                SReset(i, k) => {
                    T::sreset(&mut p[i], c(k));
                    made!(i, k);
                }
                SAlias(i, j) => {
                    p[i] = T::salias(&p[j]);
                    m[i] = m[j];
                }
                Hold(i) => {
                    T::hold(&p[i]);
                    m[2] = m[i];
                }
                Held(i) => {
                    p[i] = T::held();
                    m[i] = m[2];
                }
                Unhold => {
                    T::hold(&SharedPtr::null());
                    m[2] = None;
                }
                SSwap => {
                    p.swap(0, 1);
                    m.swap(0, 1);
                }
                Downgrade(i, j) => {
                    w[i] = p[j].downgrade();
                    mw[i] = m[j];
                }
                WNull(i) => {
                    w[i] = WeakPtr::null();
                    mw[i] = None;
                }
                WClone(i) => {
                    w[i] = w[1 - i].clone();
                    mw[i] = mw[1 - i];
                }
                WMake(i) => {
                    w[i] = T::wmake(p[i].clone());
                    mw[i] = m[i];
                }
                WEcho(i) => {
                    let q = std::mem::replace(&mut w[i], WeakPtr::null());
                    w[i] = T::wecho(q);
                }
                WDrop(i) => {
                    let n = w[1 - i].clone();
                    let q = std::mem::replace(&mut w[i], n);
                    mw[i] = mw[1 - i];
                    drop(q);
                }
                Upgrade(i, j) => {
                    p[i] = w[j].upgrade();
                    let alive = mw[j].is_some_and(|o| m.contains(&Some(o)));
                    m[i] = if alive { mw[j] } else { None };
                }
            }
        }
        let mut objs: Vec<usize> = m.iter().filter_map(|x| *x).collect();
        objs.sort();
        objs.dedup();
        ensure!(ffi::live() - live0 == if T::LEDGER { objs.len() as i64 } else { 0 });
        ensure!(!ffi::bad());
        let strong = |o: usize| m.iter().filter(|x| **x == Some(o)).count() as i64;
        for i in 0..2 {
            let null = m[i].is_none();
            ensure!(p[i].is_null() == null && p[i].as_ref().is_none() == null);
            let l = T::slook(&p[i]);
            ensure!(l.null == null);
            ensure!(T::suse(&p[i]) == m[i].map_or(0, strong), "use_count {} model {:?}", T::suse(&p[i]), m[i].map_or(0, strong));
            match m[i] {
                None => {
                    let e = message(|| (*p[i]).val());
                    ensure!(e == Some(format!("called deref on a null SharedPtr<{}>", T::TYPENAME)), "{:?}", e);
                }
                Some(o) => {
                    ensure!((*p[i]).val() == vals[o] && p[i].as_ref().unwrap().val() == vals[o] && l.val == vals[o]);
                    ensure!(p[i].as_ref().unwrap() as *const T == addr[o] && &*p[i] as *const T == addr[o]);
                    ensure!(l.addr == addr[o] as usize);
                }
            }
            // weak
            let alive = mw[i].filter(|o| m.contains(&Some(*o)));
            let l = T::wlook(&w[i]);
            ensure!(l.null == alive.is_none() && l.val == alive.map_or(-9, |o| vals[o]));
            let u = w[i].upgrade();
            ensure!(u.is_null() == alive.is_none());
            if let Some(o) = alive {
                ensure!(u.as_ref().unwrap() as *const T == addr[o] && u.val() == vals[o] && T::suse(&u) == strong(o) + 1);
            }
            drop(u);
            if let Some(o) = alive {
                ensure!(m[i] != Some(o) || T::suse(&p[i]) == strong(o));
            }
            T::sfmt(&p[i], &w[i])?;
            T::scmp(&p[i], &p[0])?;
            T::scmp(&p[i], &p[1])?;
        }
        // canonical object names
        let mut names: Vec<usize> = vec![];
        for x in m.iter().chain(mw.iter()) {
            match x {
                None => key.push(b'-'),
                Some(o) => {
                    let k = names.iter().position(|n| n == o).unwrap_or_else(|| {
                        names.push(*o);
                        names.len() - 1
                    });
                    key.extend([b'a' + k as u8, b'0' + vals[*o] as u8, b'0' + m.contains(&Some(*o)) as u8]);
                }
            }
        }
        T::hold(&SharedPtr::null());
    }
    ensure!(ffi::live() == live0 && !ffi::bad());
    Ok(true)
}
// ------------------------------------------------------- io delegation
thread_local! { static LOG: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) }; }
fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }
fn err<T>(k: i32, v: T) -> std::io::Result<T> { if k == 3 { Err(std::io::Error::new(std::io::ErrorKind::Other, "three")) } else { Ok(v) } }
impl Read for Pin<&mut Obj> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { log(format!("read {}", b.len())); b.fill(9); err(self.oval(), 5) }
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> std::io::Result<usize> { log(format!("read_to_end {:?}", b)); b.push(1); err(self.oval(), 6) }
    fn read_to_string(&mut self, b: &mut String) -> std::io::Result<usize> { log(format!("read_to_string {:?}", b)); b.push('q'); err(self.oval(), 7) }
    fn read_exact(&mut self, b: &mut [u8]) -> std::io::Result<()> { log(format!("read_exact {}", b.len())); b.fill(8); err(self.oval(), ()) }
}
impl Seek for Pin<&mut Obj> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { log(format!("seek {:?}", p)); err(self.oval(), 11) }
    fn rewind(&mut self) -> std::io::Result<()> { log("rewind".into()); err(self.oval(), ()) }
    fn stream_position(&mut self) -> std::io::Result<u64> { log("stream_position".into()); err(self.oval(), 12) }
    fn seek_relative(&mut self, o: i64) -> std::io::Result<()> { log(format!("seek_relative {}", o)); err(self.oval(), ()) }
}
impl Write for Pin<&mut Obj> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { log(format!("write {:?}", b)); err(self.oval(), 3) }
    fn write_vectored(&mut self, b: &[IoSlice]) -> std::io::Result<usize> { log(format!("write_vectored {:?}", b.iter().map(|x| x.to_vec()).collect::<Vec<_>>())); err(self.oval(), 4) }
    fn flush(&mut self) -> std::io::Result<()> { log("flush".into()); err(self.oval(), ()) }
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> { log(format!("write_all {:?}", b)); err(self.oval(), ()) }
    fn write_fmt(&mut self, a: std::fmt::Arguments) -> std::io::Result<()> { log(format!("write_fmt {}", a)); err(self.oval(), ()) }
}
const IOS: [&str; 18] = ["new 1", "new 3", "null", "read", "read_to_end", "read_to_string", "read_exact", "seek start", "seek end", "seek current", "rewind", "stream_position", "seek_relative", "write", "write_vectored", "flush", "write_all", "write_fmt"];
/// The operation done through `x`, as text.
fn io<X: Read + Seek + Write>(x: &mut X, op: &str) -> String {
    let mut v = vec![7u8];
    let mut s = String::from("s");
    let mut b = [0u8; 4];
    let r = match op {
        "read" => x.read(&mut b).map(|r| r as u64),
        "read_to_end" => x.read_to_end(&mut v).map(|r| r as u64),
        "read_to_string" => x.read_to_string(&mut s).map(|r| r as u64),
        "read_exact" => x.read_exact(&mut b).map(|_| 0),
        "seek start" => x.seek(SeekFrom::Start(u64::MAX)),
        "seek end" => x.seek(SeekFrom::End(-3)),
        "seek current" => x.seek(SeekFrom::Current(5)),
        "rewind" => x.rewind().map(|_| 0),
        "stream_position" => x.stream_position(),
        "seek_relative" => x.seek_relative(-9).map(|_| 0),
        "write" => x.write(b"w").map(|r| r as u64),
        "write_vectored" => x.write_vectored(&[IoSlice::new(b"ab"), IoSlice::new(b""), IoSlice::new(b"c")]).map(|r| r as u64),
        "flush" => x.flush().map(|_| 0),
        "write_all" => x.write_all(b"all").map(|_| 0),
        _ => x.write_fmt(format_args!("{}-{}", 1, "z")).map(|_| 0),
    };
    let l = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    format!("{:?} {:?} {:?} {:?} {:?}", r.map_err(|e| e.to_string()), v, s, b, l)
}
fn io_history(t: &[u16], key: &mut Vec<u8>) -> R<bool> {
    let mut p = UniquePtr::<Obj>::null();
    let mut k = -1;
    for (n, o) in t.iter().enumerate() {
        match IOS[*o as usize] {
            "new 1" => {
                p = ffi::umake_obj(1);
                k = 1;
            }
            "new 3" => {
                p = ffi::umake_obj(3);
                k = 3;
            }
            "null" => {
                p = UniquePtr::null();
                k = -1;
            }
            op => {
                if k < 0 {
                    let e = message(|| io(&mut p, op));
                    ensure!(e.is_some_and(|e| e.contains("on a null UniquePtr<Obj>")));
                    ensure!(LOG.with(|l| l.borrow().is_empty()));
                } else {
                    let a = io(&mut p, op);
                    let b = io(&mut p.pin_mut(), op);
                    ensure!(a == b, "{} vs {}", a, b);
                }
                if n + 1 < t.len() && t[n + 1] > 2 {
                    continue;
                }
            }
        }
    }
    LOG.with(|l| *l.borrow_mut() = Vec::new());
    key.push(k as u8);
    Ok(true)
}
pub fn systems() -> Vec<System> {
    fn u<T: U>(name: &str) -> System {
        let all = uops();
        let names = all.iter().map(|o| format!("{o:?}")).collect();
        rust_system(&format!("unique-{name}"), names, move |t, k| uhistory::<T>(&all, t, k))
    }
    fn s<T: S>(name: &str) -> System {
        let all = sops();
        let names = all.iter().map(|o| format!("{o:?}")).collect();
        rust_system(&format!("shared-{name}"), names, move |t, k| shistory::<T>(&all, t, k))
    }
    vec![
        rust_system("unique-io", IOS.iter().map(|s| s.to_string()).collect(), io_history),''')
for T,n,*_ in U: w(f'        u::<{T}>("{n}"),')
for T,n,*_ in S: w(f'        s::<{T}>("{n}"),')
w('''    ]
}''')
open("src/c08.rs","w").write("\n".join(o)+"\n")

h=open("cc/c08.hpp","w")
h.write('''// Generated by gen_c08.py.
#pragma once
#include "rust/cxx.h"
#include <cstdlib>
#include <memory>
#include <new>
#include <string>
#include <vector>
extern "C" {
std::uint64_t vk8_new();
void vk8_drop(std::uint64_t);
}
namespace c08 {
struct Sh;
struct P3;
enum class En : std::int16_t;
struct Look;
extern std::int64_t own;
struct Base {
  std::int32_t val;
  std::int32_t pad = 0;
  std::uint64_t id;
  Base(int v = 0) : val(v), id(vk8_new()) {}
  Base(const Base &o) : val(o.val), id(vk8_new()) {}
  Base(Base &&o) noexcept : val(o.val), id(o.id) { o.id = 0; }
  Base &operator=(const Base &o) { val = o.val; return *this; }
  ~Base() {
    vk8_drop(id);
    id = 0xdead0000dead;
  }
};
// has allocation functions of its own
struct Tracked : Base {
  using IsRelocatable = std::true_type;
  using Base::Base;
  static void *operator new(std::size_t n) {
    own++;
    void *p = std::malloc(n + 64);
    return static_cast<char *>(p) + 64;
  }
  static void *operator new(std::size_t, void *p) { return p; }
  static void operator delete(void *p) noexcept {
    own--;
    std::free(static_cast<char *>(p) - 64);
  }
};
struct alignas(32) TrackedA {
  using IsRelocatable = std::true_type;
  Base t;
  TrackedA(int k) : t(k) {}
};
struct Obj : Base {
  const Obj *self = this;
  using Base::Base;
  Obj(const Obj &) = delete;
  std::int32_t oval() const noexcept { return self == this ? val : -2; }
  void oset(std::int32_t k) noexcept { val = k; }
};
struct Poly {
  virtual ~Poly() {}
  virtual std::int32_t pval() const noexcept = 0;
  virtual void pset(std::int32_t k) noexcept = 0;
};
std::int64_t live() noexcept;
bool bad() noexcept;
std::int64_t own_news() noexcept;
void string_set(std::string &s, std::int32_t k);
Tracked tracked_mk(std::int32_t k);
void vobj_set(std::vector<Obj> &v, std::int32_t k);
std::int32_t vobj_val(const std::vector<Obj> &v);
void vstring_set(std::vector<std::string> &v, std::int32_t k);
''')
for T,n,*_ in U:
    c=ct(T)
    h.write(f'''std::unique_ptr<{c}> umake_{n}(std::int32_t k);
std::int32_t utake_{n}(std::unique_ptr<{c}> p);
std::unique_ptr<{c}> uecho_{n}(std::unique_ptr<{c}> p);
void ureset_{n}(std::unique_ptr<{c}> &p, std::int32_t k);
Look ulook_{n}(const std::unique_ptr<{c}> &p);
''')
for T,n,*_ in S:
    c=ct(T)
    h.write(f'''std::shared_ptr<{c}> smake_{n}(std::int32_t k);
std::int32_t stake_{n}(std::shared_ptr<{c}> p);
std::shared_ptr<{c}> secho_{n}(std::shared_ptr<{c}> p);
void sreset_{n}(std::shared_ptr<{c}> &p, std::int32_t k);
Look slook_{n}(const std::shared_ptr<{c}> &p);
std::int64_t suse_{n}(const std::shared_ptr<{c}> &p);
std::shared_ptr<{c}> salias_{n}(const std::shared_ptr<{c}> &p);
void hold_{n}(const std::shared_ptr<{c}> &p);
std::shared_ptr<{c}> held_{n}();
std::weak_ptr<{c}> wmake_{n}(std::shared_ptr<{c}> p);
std::weak_ptr<{c}> wecho_{n}(std::weak_ptr<{c}> p);
Look wlook_{n}(const std::weak_ptr<{c}> &p);
''')
h.write("} // namespace c08\n"); h.close()
c=open("cc/c08.cc","w")
c.write('''// Generated by gen_c08.py.
#include "rt/cc/c08.hpp"
#include "rt/src/c08.rs.h"
#include <limits>
#include <set>
namespace c08 {
static std::set<std::uint64_t> *ids = new std::set<std::uint64_t>();
static std::uint64_t next_id = 1;
static std::int64_t nlive = 0;
static bool isbad = false;
std::int64_t own = 0;
std::int64_t live() noexcept { return nlive; }
bool bad() noexcept { return isbad; }
std::int64_t own_news() noexcept { return own; }
static const char *texts[] = {
    "", "one", "a text longer than any small string buffer", "\\xf0\\x9f\\xa6\\x80"};
void string_set(std::string &s, std::int32_t k) { s = texts[k]; }
void vstring_set(std::vector<std::string> &v, std::int32_t k) { v[1] = texts[k]; }
Tracked tracked_mk(std::int32_t k) { return Tracked(k); }
void vobj_set(std::vector<Obj> &v, std::int32_t k) { v[1].oset(k); }
std::int32_t vobj_val(const std::vector<Obj> &v) { return v.size() == 2 ? v[1].oval() : -1; }
struct Other {
  virtual ~Other() {}
  std::int64_t junk = 5;
};
struct Derived : Other, Poly { // Poly at a non-zero offset
  Base b;
  Derived(int k) : b(k) {}
  std::int32_t pval() const noexcept override { return junk == 5 ? b.val : -2; }
  void pset(std::int32_t k) noexcept override { b.val = k; }
};
template <typename T> struct Tr {
  using L = std::numeric_limits<T>;
  static T mk(int k) {
    if (std::is_same<T, bool>::value) return T(k & 1);
    switch (k) {
    case 0: return T(0);
    case 1: return T(1);
    case 2: return L::max();
    default: return std::is_floating_point<T>::value ? T(-1.5) : std::is_signed<T>::value ? L::min() : T(L::max() - 1);
    }
  }
  static T *create(int k) { return new T(mk(k)); }
  static int val(const T &x) {
    for (int k = 0; k < 4; k++) if (x == mk(k)) return k;
    return -1;
  }
};
template <> struct Tr<std::string> {
  static std::string *create(int k) { return new std::string(texts[k]); }
  static int val(const std::string &x) { for (int k = 0; k < 4; k++) if (x == texts[k]) return k; return -1; }
};
template <> struct Tr<Sh> {
  static Sh *create(int k) { return new Sh{k, texts[k]}; }
  static int val(const Sh &x) { return std::string(x.s) == texts[x.n] ? x.n : -1; }
};
template <> struct Tr<P3> {
  static P3 *create(int k) { auto c = static_cast<std::uint8_t>(k); return new P3{c, c, c}; }
  static int val(const P3 &x) { return x.a == x.b && x.b == x.c ? x.a : -1; }
};
template <> struct Tr<En> {
  static En *create(int k) { const En e[] = {En::A, En::B, En::C, En::D}; return new En(e[k]); }
  static int val(En x) { return x == En::D ? 3 : int(x); }
};
template <> struct Tr<Obj> {
  static Obj *create(int k) { return new Obj(k); }
  static int val(const Obj &x) { return x.oval(); }
};
template <> struct Tr<Poly> {
  static Poly *create(int k) { return new Derived(k); }
  static int val(const Poly &x) { return x.pval(); }
};
template <> struct Tr<Tracked> {
  static Tracked *create(int k) { return new Tracked(k); }
  static int val(const Tracked &x) { return x.val; }
};
template <> struct Tr<TrackedA> {
  static TrackedA *create(int k) { return new TrackedA(k); }
  static int val(const TrackedA &x) { return reinterpret_cast<std::uintptr_t>(&x) % 32 ? -1 : x.t.val; }
};
template <> struct Tr<std::vector<Obj>> {
  static std::vector<Obj> *create(int k) { auto p = new std::vector<Obj>(2); (*p)[1].oset(k); return p; }
  static int val(const std::vector<Obj> &x) { return vobj_val(x); }
};
template <typename T> struct Tr<std::vector<T>> {
  static std::vector<T> *create(int k) {
    auto p = new std::vector<T>();
    for (int j : {0, k}) { std::unique_ptr<T> e(Tr<T>::create(j)); p->push_back(std::move(*e)); }
    return p;
  }
  static int val(const std::vector<T> &x) { return x.size() == 2 ? Tr<T>::val(x[1]) : -1; }
};
template <> struct Tr<std::vector<std::int32_t>> {
  static std::vector<std::int32_t> *create(int k) { return new std::vector<std::int32_t>{0, k}; }
  static int val(const std::vector<std::int32_t> &x) { return x.size() == 2 ? x[1] : -1; }
};
template <typename T> Look look(const T *p) {
  Look l;
  l.null = !p;
  l.val = p ? Tr<T>::val(*p) : -9;
  l.addr = reinterpret_cast<std::size_t>(p);
  return l;
}
template <typename T> std::shared_ptr<T> &slot() {
  static auto *p = new std::shared_ptr<T>();
  return *p;
}
''')
for T,n,*_ in U:
    t=ct(T)
    c.write(f'''std::unique_ptr<{t}> umake_{n}(std::int32_t k) {{ return std::unique_ptr<{t}>(k < 0 ? nullptr : Tr<{t}>::create(k)); }}
std::int32_t utake_{n}(std::unique_ptr<{t}> p) {{ return look<{t}>(p.get()).val; }}
std::unique_ptr<{t}> uecho_{n}(std::unique_ptr<{t}> p) {{ return p; }}
void ureset_{n}(std::unique_ptr<{t}> &p, std::int32_t k) {{ p.reset(k < 0 ? nullptr : Tr<{t}>::create(k)); }}
Look ulook_{n}(const std::unique_ptr<{t}> &p) {{ return look<{t}>(p.get()); }}
''')
for T,n,*_ in S:
    t=ct(T)
    c.write(f'''std::shared_ptr<{t}> smake_{n}(std::int32_t k) {{ return k < 0 ? std::shared_ptr<{t}>() : std::shared_ptr<{t}>(Tr<{t}>::create(k)); }}
std::int32_t stake_{n}(std::shared_ptr<{t}> p) {{ return look<{t}>(p.get()).val; }}
std::shared_ptr<{t}> secho_{n}(std::shared_ptr<{t}> p) {{ return p; }}
void sreset_{n}(std::shared_ptr<{t}> &p, std::int32_t k) {{ p.reset(Tr<{t}>::create(k)); }}
Look slook_{n}(const std::shared_ptr<{t}> &p) {{ return look<{t}>(p.get()); }}
std::int64_t suse_{n}(const std::shared_ptr<{t}> &p) {{ return p.use_count(); }}
std::shared_ptr<{t}> salias_{n}(const std::shared_ptr<{t}> &p) {{ return std::shared_ptr<{t}>(p, p.get()); }}
void hold_{n}(const std::shared_ptr<{t}> &p) {{ slot<{t}>() = p; }}
std::shared_ptr<{t}> held_{n}() {{ return slot<{t}>(); }}
std::weak_ptr<{t}> wmake_{n}(std::shared_ptr<{t}> p) {{ return p; }}
std::weak_ptr<{t}> wecho_{n}(std::weak_ptr<{t}> p) {{ return p; }}
Look wlook_{n}(const std::weak_ptr<{t}> &p) {{ auto s = p.lock(); return look<{t}>(s.get()); }}
''')
c.write('''} // namespace c08
extern "C" {
std::uint64_t vk8_new() {
  c08::nlive++;
  c08::ids->insert(c08::next_id);
  return c08::next_id++;
}
void vk8_drop(std::uint64_t id) {
  if (id == 0)
    return;
  if (!c08::ids->erase(id))
    c08::isbad = true;
  else
    c08::nlive--;
}
}
''')
c.close()
