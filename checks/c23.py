"""C23: what safe Rust may do with bridged types: auto traits, pinning, moving, borrowing, unsafe and visibility."""
import itertools, os, re
import gk, vk
LEVEL = "exploration"

PRE = '''
use std::pin::Pin; use cxx::{UniquePtr, SharedPtr, WeakPtr, CxxVector, CxxString};
pub fn mk<T>() -> T { loop {} }
pub fn us<T>(_: T) {}
pub fn st<T: 'static>(_: T) {}
pub struct R(u8);
pub struct RL<'a>(pub &'a str);
pub struct NotSend(std::rc::Rc<u8>); pub struct NotSync(std::cell::Cell<u8>); pub struct Pinned(std::marker::PhantomPinned);
#[repr(C)] pub struct Tr { pub x: u8 }
unsafe impl cxx::ExternType for Tr { type Id = cxx::type_id!("Tr"); type Kind = cxx::kind::Trivial; }
#[repr(C)] pub struct TrNone { pub x: u8, m: std::marker::PhantomData<(*const u8, std::marker::PhantomPinned)> }
unsafe impl cxx::ExternType for TrNone { type Id = cxx::type_id!("TrNone"); type Kind = cxx::kind::Trivial; }
#[repr(C)] pub struct Op { x: u8 }
unsafe impl cxx::ExternType for Op { type Id = cxx::type_id!("Op"); type Kind = cxx::kind::Opaque; }
#[cxx::bridge]
pub mod ffi {
    pub struct S { pub x: u8, pub s: String }
    pub struct Sn { pub p: *const u8 }
    pub struct Sc { pub p: UniquePtr<C> }
    pub struct Sb { pub p: UniquePtr<CBoth> }
    pub struct Sh { pub p: SharedPtr<CSend> }
    pub struct Sr { pub p: Box<NotSend> }
    pub struct Sv { pub p: Vec<NotSync> }
    pub struct Sw { pub p: WeakPtr<CBoth> }
    #[derive(Clone)] pub struct Sl<'a> { pub s: &'a str }
    #[derive(Copy, Clone)] pub struct Scopy { pub x: u8 }
    pub enum E { A }
    extern "Rust" { type R; type RL<'a>; type NotSend; type NotSync; }
    unsafe extern "C++" {
        type C; type CSend; type CSync; type CBoth; type CUnpin; type L<'a>;
        type Tr = crate::Tr; type TrNone = crate::TrNone; type Op = crate::Op;
        fn mutate(self: Pin<&mut C>);
        fn read(self: &C) -> u8;
        //FNS
        fn make_l<'a>(x: &'a String) -> UniquePtr<L<'a>>;
    }
    impl Box<S> {} impl Vec<S> {}
%s
}
use ffi::*;
unsafe impl Send for CSend {} unsafe impl Sync for CSync {} unsafe impl Send for CBoth {} unsafe impl Sync for CBoth {}
pub fn tie<'a>(x: &'a String) -> UniquePtr<L<'a>> { loop {} }
''' % "\n".join("    impl %s<%s> {}" % (w, t) for w in ("UniquePtr", "SharedPtr", "WeakPtr", "CxxVector") for t in ("C", "CSend", "CSync", "CBoth", "S", "Sc", "Scopy", "Tr", "TrNone", "Op"))

SEND, SYNC, UNPIN, UNW, REFUNW = "Send", "Sync", "Unpin", "std::panic::UnwindSafe", "std::panic::RefUnwindSafe"
# what the documentation says of each type: (Send, Sync, Unpin)
BASE = {
    "C": (0, 0, 0), "CSend": (1, 0, 0), "CSync": (0, 1, 0), "CBoth": (1, 1, 0), "CxxString": (1, 1, 0), "Op": (1, 1, 1), "L<'static>": (0, 0, 0),
    "S": (1, 1, 1), "Scopy": (1, 1, 1), "E": (1, 1, 1), "Sn": (0, 0, 1), "Sc": (0, 0, 1), "Sb": (1, 1, 1), "Sh": (0, 0, 1), "Sr": (0, 0, 1), "Sv": (1, 0, 1), "Sw": (1, 1, None), "Sl<'static>": (1, 1, 1),
    "Tr": (1, 1, 1), "TrNone": (0, 0, 0), "u8": (1, 1, 1), "usize": (1, 1, 1), "f64": (1, 1, 1), "cxx::Exception": (1, 1, 1),
}


def autotraits(ck, g):
    rows = dict(BASE)
    for t in ("C", "CSend", "CSync", "CBoth", "S", "Sc", "Scopy", "Tr", "TrNone", "Op", "u8", "usize", "f64", "CxxString"):
        s, y, u = BASE[t]
        if t not in ("u8", "usize", "f64"):
            rows["UniquePtr<%s>" % t] = (s, y, 1)
        rows["SharedPtr<%s>" % t] = (s and y, s and y, 1)
        rows["WeakPtr<%s>" % t] = (s and y, s and y, 1 if u else None)   # nothing is said of a WeakPtr being Unpin
        rows["CxxVector<%s>" % t] = (s, y, 0)
        if True:
            rows["UniquePtr<CxxVector<%s>>" % t] = (s, y, 1)
    more = {}
    for t, (s, y, u) in rows.items():
        more["&'static " + t] = (y, y, 1)
        more["&'static mut " + t] = (s, y, 1)
        more["Pin<&'static mut %s>" % t] = (s, y, 1)
        more["Vec<Box<%s>>" % t] = (s, y, 1)
        more["*const " + t] = (0, 0, 1)
    for t in ("C", "CSend", "CSync", "CBoth", "S", "u8", "Tr", "Sc"):
        s, y, u = BASE[t]
        more["cxx::vector::Iter<'static, %s>" % t] = (y, y, 1)
        more["cxx::vector::IterMut<'static, %s>" % t] = (s, y, 1)
    rows.update(more)
    # unwind safety: nothing that C++ has is a reason to lose it
    unw = {t: 1 for t in ("C", "CSend", "CBoth", "CxxString", "S", "Scopy", "E", "Tr", "u8", "&'static C", "&'static CxxString", "UniquePtr<C>", "UniquePtr<CxxString>", "SharedPtr<C>", "WeakPtr<C>", "&'static CxxVector<C>", "UniquePtr<CxxVector<u8>>", "cxx::Exception", "Sc")}
    mods, want = [], []
    for t, f in rows.items():
        for tr, v in zip((SEND, SYNC, UNPIN), f):
            if v is None:
                continue
            mods.append("pub fn f() { fn is<T: %s + ?Sized>() {} is::<%s>(); }" % (tr, t))
            want.append((bool(v), "%s is %s" % (t, tr)))
    for t in unw:
        for tr in (UNW, REFUNW):
            mods.append("pub fn f() { fn is<T: %s + ?Sized>() {} is::<%s>(); }" % (tr, t))
            want.append((True, "%s is %s" % (t, tr)))
        if not t.startswith("&"):
            mods.append("pub fn f() { fn is<T: %s>() {} is::<&mut %s>(); }" % (UNW, t))
            want.append((False, "&mut %s is UnwindSafe" % t))
    # what nothing of C++ has
    for t in ("C", "CxxString", "CxxVector<u8>", "UniquePtr<C>", "L<'static>"):
        for tr in ("Copy", "Clone", "Default"):
            ok = t.startswith("UniquePtr") and tr == "__" or False
            mods.append("pub fn f() { fn is<T: %s>() {} is::<%s>(); }" % (tr, t))
            want.append((ok, "%s is %s" % (t, tr)))
    for t in ("S", "E", "Scopy", "SharedPtr<C>", "WeakPtr<C>"):
        for tr in ("Copy", "Clone"):
            mods.append("pub fn f() { fn is<T: %s>() {} is::<%s>(); }" % (tr, t))
            want.append((t in ("E", "Scopy") or tr == "Clone" and t[-1] == ">", "%s is %s" % (t, tr)))
    judge(ck, g, mods, want, "auto", "traits of types")


def judge(ck, g, mods, want, tag, what):
    for m, (ok, name), src in zip(g.verdicts(mods, PRE, tag=tag, per=400, rounds=30), want, mods):
        if ok != (not m):
            ck.violation("%s: %s" % (name, "is refused: " + m[0] if m else "is accepted"), src, key="%s:%s" % (tag, name.replace(" ", "_")))
    ck.log("%s: %d programs, %d to be refused" % (what, len(mods), sum(not w[0] for w in want)))
    ck.count("evaluations", len(mods))
    ck.count("distinct_nontrivial", len(set(mods)))
    ck.sample("%s: %s" % (what, want[len(want) // 2][1]))


def moving(ck, g):
    """Values of opaque types can be neither held, made, moved, swapped nor overwritten; what is trivial can."""
    # type -> (may be moved, is Unpin, may be in C++ containers by value, has its fields public)
    kinds = {
        "C": (0, 0, "opaque"), "CSend": (0, 0, "opaque"), "CBoth": (0, 0, "opaque"), "CxxString": (0, 0, "string"), "L<'static>": (0, 0, "lifetime"), "Op": (0, 1, "alias"),
        "S": (1, 1, "struct"), "Scopy": (1, 1, "struct"), "Tr": (1, 1, "alias"), "TrNone": (1, 0, "alias"), "Sc": (1, 1, "struct"), "u8": (1, 1, "prim"), "f64": (1, 1, "prim"),
    }
    mods, want = [], []

    def add(name, body, ok):
        mods.append("pub fn f() { %s }" % body)
        want.append((bool(ok), name))
    for t, (triv, unpin, kind) in kinds.items():
        copy = t in ("Scopy", "u8", "f64")
        ptr = kind != "lifetime"
        opq = not triv
        add("%s: move out of a reference" % t, "let r: &%s = mk(); let v = *r;" % t, copy)
        if kind != "alias" or not opq:
            pass
        add("%s: swap behind a pin" % t, "let a: Pin<&mut %s> = mk(); let b: Pin<&mut %s> = mk(); std::mem::swap(a.get_mut(), b.get_mut());" % (t, t), unpin)
        add("%s: deref a pin mutably" % t, "let mut a: Pin<&mut %s> = mk(); let b: &mut %s = &mut *a;" % (t, t), unpin)
        add("%s: deref a pin" % t, "let a: Pin<&mut %s> = mk(); let b: &%s = &*a;" % (t, t), 1)
        add("%s: get_unchecked_mut without unsafe" % t, "let a: Pin<&mut %s> = mk(); let b = a.get_unchecked_mut();" % t, 0)
        add("%s: set behind a pin" % t, "let mut a: Pin<&mut %s> = mk(); a.set(mk());" % t, 1)
        add("%s: pin a reference" % t, "let a: &mut %s = mk(); let p = Pin::new(a);" % t, unpin)
        add("%s: unpin a value" % t, "let a: Pin<&mut %s> = mk(); let p: &mut %s = Pin::into_inner(a);" % (t, t), unpin)
        if kind == "opaque":
            add("%s: make one" % t, "let v = ffi::%s {};" % t, 0)
            add("%s: make one with its field" % t, "let v = ffi::%s { _private: mk() };" % t, 0)
        if kind == "string":
            add("%s: make one" % t, "let v = CxxString::new();", 0)
            add("%s: make one with its fields" % t, "let v = CxxString { _private: [], _pinned: std::marker::PhantomData };", 0)
        if not ptr:
            continue
        add("%s: UniquePtr of a value" % t, "let v: %s = mk(); let p = UniquePtr::new(v);" % t, triv and kind != "prim")
        add("%s: SharedPtr of a value" % t, "let v: %s = mk(); let p = SharedPtr::new(v);" % t, triv)
        add("%s: deref UniquePtr" % t, "let p: UniquePtr<%s> = mk(); let r: &%s = &*p;" % (t, t), kind != "prim")
        add("%s: deref UniquePtr mutably" % t, "let mut p: UniquePtr<%s> = mk(); let r: &mut %s = &mut *p;" % (t, t), unpin and kind != "prim")
        add("%s: move out of UniquePtr" % t, "let p: UniquePtr<%s> = mk(); let v = *p;" % t, copy and kind != "prim")
        add("%s: swap what UniquePtr has" % t, "let mut p: UniquePtr<%s> = mk(); let mut q: UniquePtr<%s> = mk(); std::mem::swap(&mut *p, &mut *q);" % (t, t), unpin and kind != "prim")
        add("%s: pin_mut" % t, "let mut p: UniquePtr<%s> = mk(); let r: Pin<&mut %s> = p.pin_mut();" % (t, t), kind != "prim")
        add("%s: as_mut" % t, "let mut p: UniquePtr<%s> = mk(); let r: Option<Pin<&mut %s>> = p.as_mut();" % (t, t), kind != "prim")
        add("%s: pin_mut of a constant" % t, "let p: UniquePtr<%s> = mk(); let r = p.pin_mut();" % t, 0)
        add("%s: pin_mut through a reference" % t, "let p: &UniquePtr<%s> = mk(); let r = p.pin_mut();" % t, 0)
        add("%s: as_ref to a mutable reference" % t, "let mut p: UniquePtr<%s> = mk(); let r: Option<&mut %s> = p.as_mut();" % (t, t), 0)
        add("%s: from_raw without unsafe" % t, "let p: UniquePtr<%s> = UniquePtr::from_raw(mk());" % t, 0)
        add("%s: from_raw" % t, "let p: UniquePtr<%s> = unsafe { UniquePtr::from_raw(mk()) };" % t, kind != "prim")
        add("%s: clone UniquePtr" % t, "let p: UniquePtr<%s> = mk(); let q: UniquePtr<%s> = p.clone();" % (t, t), 0)
        add("%s: use a moved UniquePtr" % t, "let p: UniquePtr<%s> = mk(); let q = p; us(p);" % t, 0)
        add("%s: use UniquePtr after into_raw" % t, "let p: UniquePtr<%s> = mk(); let q = p.into_raw(); us(p);" % t, 0)
        add("%s: clone SharedPtr" % t, "let p: SharedPtr<%s> = mk(); let q: SharedPtr<%s> = p.clone(); us((p, q));" % (t, t), 1)
        add("%s: deref SharedPtr" % t, "let p: SharedPtr<%s> = mk(); let r: &%s = &*p;" % (t, t), 1)
        add("%s: deref SharedPtr mutably" % t, "let mut p: SharedPtr<%s> = mk(); let r: &mut %s = &mut *p;" % (t, t), 0)
        add("%s: SharedPtr pin_mut" % t, "let mut p: SharedPtr<%s> = mk(); let r = p.pin_mut();" % t, 0)
        add("%s: deref WeakPtr" % t, "let p: WeakPtr<%s> = mk(); let r: &%s = &*p;" % (t, t), 0)
        add("%s: upgrade" % t, "let p: WeakPtr<%s> = mk(); let q: SharedPtr<%s> = p.upgrade();" % (t, t), 1)
        add("%s: downgrade" % t, "let p: SharedPtr<%s> = mk(); let q: WeakPtr<%s> = p.downgrade(); us(p);" % (t, t), 1)
        v = "CxxVector<%s>" % t
        add("%s: vector as_slice" % t, "let v: &%s = mk(); let s: &[%s] = v.as_slice();" % (v, t), triv)
        add("%s: vector as_mut_slice" % t, "let v: Pin<&mut %s> = mk(); let s: &mut [%s] = v.as_mut_slice();" % (v, t), triv)
        add("%s: vector push" % t, "let v: Pin<&mut %s> = mk(); v.push(mk());" % v, triv)
        add("%s: vector pop" % t, "let v: Pin<&mut %s> = mk(); let e = v.pop();" % v, triv)
        add("%s: vector get" % t, "let v: &%s = mk(); let e: Option<&%s> = v.get(0);" % (v, t), 1)
        add("%s: vector index_mut" % t, "let v: Pin<&mut %s> = mk(); let e: Option<Pin<&mut %s>> = v.index_mut(0);" % (v, t), 1)
        add("%s: vector get_unchecked without unsafe" % t, "let v: &%s = mk(); let e = v.get_unchecked(0);" % v, 0)
        add("%s: vector index_unchecked_mut without unsafe" % t, "let v: Pin<&mut %s> = mk(); let e = v.index_unchecked_mut(0);" % v, 0)
        add("%s: vector of references" % t, "let v: &%s = mk(); for e in v { let e: &%s = e; }" % (v, t), 1)
        add("%s: vector of values" % t, "let v: &%s = mk(); for e in v { let e: %s = *e; }" % (v, t), copy)
        add("%s: mutable iteration" % t, "let v: Pin<&mut %s> = mk(); for e in v { let e: Pin<&mut %s> = e; }" % (v, t), 1)
        add("%s: mutable iteration without pins" % t, "let v: Pin<&mut %s> = mk(); for e in v { let e: &mut %s = e.get_mut(); }" % (v, t), unpin)
        add("%s: iter_mut of a shared vector" % t, "let v: &%s = mk(); for e in v.iter_mut() { us(e); }" % v, 0)
        add("%s: move a vector" % t, "let v: &%s = mk(); let w = *v;" % v, 0)
        add("%s: swap vectors" % t, "let v: Pin<&mut %s> = mk(); let w: Pin<&mut %s> = mk(); std::mem::swap(v.get_mut(), w.get_mut());" % (v, v), 0)
        add("%s: new vector" % t, "let v: UniquePtr<%s> = CxxVector::new();" % v, t not in ("CxxString",) or 1)
    for n, body, ok in (
        ("C++ method on a reference", "let c: &C = mk(); c.read();", 1), ("C++ mutable method on a reference", "let c: &C = mk(); c.mutate();", 0), ("C++ mutable method on a pin", "let c: Pin<&mut C> = mk(); c.mutate();", 1),
        ("C++ mutable method on a pin twice", "let c: Pin<&mut C> = mk(); c.mutate(); c.mutate();", 0), ("C++ mutable method on a reborrowed pin", "let mut c: Pin<&mut C> = mk(); c.as_mut().mutate(); c.mutate();", 1), ("C++ mutable method on a &mut", "let c: &mut C = mk(); c.mutate();", 0), ("C++ mutable method on a SharedPtr", "let c: SharedPtr<C> = mk(); c.mutate();", 0), ("C++ method on a SharedPtr", "let c: SharedPtr<C> = mk(); c.read();", 1), ("C++ method on a UniquePtr", "let c: UniquePtr<C> = mk(); c.read();", 1), ("C++ mutable method on a UniquePtr", "let mut c: UniquePtr<C> = mk(); c.mutate();", 0), ("C++ mutable method on pin_mut", "let mut c: UniquePtr<C> = mk(); c.pin_mut().mutate();", 1),
        ("CxxString cleared through a reference", "let s: &CxxString = mk(); s.clear();", 0), ("CxxString cleared through a pin", "let s: Pin<&mut CxxString> = mk(); s.clear();", 1), ("CxxString pushed through &mut", "let s: &mut CxxString = mk(); s.push_str(\"a\");", 0), ("CxxString in a Vec", "let s: &CxxString = mk(); let v = vec![*s];", 0),
        ("let_cxx_string!", "cxx::let_cxx_string!(s = \"a\"); s.push_str(\"b\");", 1), ("let_cxx_string! that is mutable", "cxx::let_cxx_string!(s = \"a\"); s.as_mut().push_str(\"b\"); s.clear();", 1), ("let_cxx_string! read", "cxx::let_cxx_string!(s = \"a\"); us(s.len()); us(s.as_bytes());", 1), ("let_cxx_string! out of its scope", "let r: Pin<&mut CxxString>; { cxx::let_cxx_string!(s = \"a\"); r = s; } us(r);", 0), ("let_cxx_string! reference out of its scope", "let r: &CxxString; { cxx::let_cxx_string!(s = \"a\"); r = &*s.into_ref(); } us(r);", 0), ("let_cxx_string! get_mut", "cxx::let_cxx_string!(s = \"a\"); us(s.get_mut());", 0), ("let_cxx_string! static", "cxx::let_cxx_string!(s = \"a\"); st(s);", 0), ("let_cxx_string! borrowed from it and cleared", "cxx::let_cxx_string!(s = \"a\"); let b = s.as_bytes(); s.as_mut().clear(); us(b);", 0),
        ("struct field moved", "let s: S = mk(); let t = s.s; us(s.x);", 1), ("struct used after a move", "let s: S = mk(); let t = s; us(s.x);", 0), ("a copy used", "let s: Scopy = mk(); let t = s; us(s.x);", 1),
        ("enum matched without the others", "let e: E = mk(); match e { E::A => {} }", 0), ("enum matched", "let e: E = mk(); match e { E::A => {} _ => {} }", 1), ("enum with an unknown value", "let e = E { repr: 7 };", 1),
        ("sending a UniquePtr<C>", "let p: UniquePtr<C> = mk(); std::thread::spawn(move || us(p));", 0), ("sending a UniquePtr<CSend>", "let p: UniquePtr<CSend> = mk(); std::thread::spawn(move || us(p));", 1), ("sharing a UniquePtr<CSend>", "let p: &'static UniquePtr<CSend> = mk(); std::thread::spawn(move || us(p));", 0), ("sharing a UniquePtr<CSync>", "let p: &'static UniquePtr<CSync> = mk(); std::thread::spawn(move || us(p));", 1), ("sending a SharedPtr<CSend>", "let p: SharedPtr<CSend> = mk(); std::thread::spawn(move || us(p));", 0), ("sending a SharedPtr<CSync>", "let p: SharedPtr<CSync> = mk(); std::thread::spawn(move || us(p));", 0), ("sending a SharedPtr<CBoth>", "let p: SharedPtr<CBoth> = mk(); std::thread::spawn(move || us(p));", 1), ("sending a WeakPtr<CSend>", "let p: WeakPtr<CSend> = mk(); std::thread::spawn(move || us(p));", 0), ("sending a WeakPtr<CBoth>", "let p: WeakPtr<CBoth> = mk(); std::thread::spawn(move || us(p));", 1), ("sending &C", "let p: &'static C = mk(); std::thread::spawn(move || us(p));", 0),
        ("implementing Drop for a struct of the bridge", "impl Drop for S { fn drop(&mut self) {} }", 1), ("implementing Drop for a C++ type", "impl Drop for C { fn drop(&mut self) {} }", 1), ("implementing Unpin for a C++ type", "", 1)):
        if "implementing" in n or "unknown value" in n:
            continue
        add(n, body, ok)
    judge(ck, g, mods, want, "move", "moving and pinning")
    # an opaque C++ type that is made Unpin is refused by the bridge when it is behind a pin
    mods, want = [], []
    for use, needs in (("fn f(x: Pin<&mut T>);", True), ("fn f(self: Pin<&mut T>);", True), ("fn f(x: &T);", None), ("fn f() -> UniquePtr<T>;", None)):
        for imp in ("", "impl Unpin for ffi::T {}"):
            if imp and needs is None:
                continue
            mods.append('#[cxx::bridge] pub mod ffi { unsafe extern "C++" { type T; %s } } %s' % (use, imp))
            want.append((not imp, "%s of a type that is %sUnpin" % (use, "" if imp else "not ")))
    for use in ("fn f(x: &mut T);", "fn f(self: &mut T);", "fn f(x: &T);", "fn f(x: Box<T>);", "fn f(x: &mut [T]);"):
        if "[" in use:
            continue
        body = "pub fn f(x: &mut T) {}" if "x: &mut T" in use else "pub fn f(x: &T) {}" if "x: &T" in use else "pub fn f(x: Box<T>) {}" if "Box" in use else "impl T { fn f(&mut self) {} }"
        for un in (True, False):
            if not un and not "&mut T" in use:
                continue
            mods.append('pub struct T(%s); %s #[cxx::bridge] pub mod ffi { extern "Rust" { type T; %s } }' % ("u8" if un else "std::marker::PhantomPinned", body, use))
            want.append((un, "%s of a Rust type that is %sUnpin" % (use, "" if un else "not ")))
    judge(ck, g, mods, want, "unpin", "Unpin of types of the bridge")


# ---------------------------------------------------------------- borrowing through the library
def library(ck, g):
    """Every accessor against every misuse, by what it borrows."""
    up, sp, vec = "UniquePtr<C>", "SharedPtr<C>", "UniquePtr<CxxVector<u8>>"
    # (owner, accessor expression on x, is the borrow shared or exclusive)
    acc = [
        (up, "x.as_ref()", 0), (up, "&*x", 0), (up, "x.as_mut()", 1), (up, "x.pin_mut()", 1), ("UniquePtr<S>", "&mut *x", 1), ("UniquePtr<S>", "&x.s", 0), (up, "x.as_ptr()", None), (up, "x.is_null()", None),
        (sp, "x.as_ref()", 0), (sp, "&*x", 0), (sp, "x.clone()", None), (sp, "x.downgrade()", None), ("WeakPtr<C>", "x.upgrade()", None), ("WeakPtr<C>", "x.clone()", None),
        (vec, "x.as_slice()", 0), (vec, "x.pin_mut().as_mut_slice()", 1), (vec, "x.get(0)", 0), (vec, "x.iter()", 0), (vec, "x.pin_mut().iter_mut()", 1), (vec, "x.pin_mut().index_mut(0)", 1), (vec, "(&*x).into_iter()", 0), (vec, "x.pin_mut().into_iter()", 1), (vec, "x.len()", None), (vec, "x.pin_mut().pop()", None), (vec, "unsafe { x.get_unchecked(0) }", 0), (vec, "x.iter().next()", 0), (vec, "x.pin_mut().iter_mut().next()", 1), (vec, "x.iter().len()", None), (vec, "x.iter().max()", 0),
        ("UniquePtr<CxxVector<S>>", "x.iter().map(|s| &s.s).next()", 0), ("UniquePtr<CxxVector<C>>", "x.get(1)", 0),
        ("UniquePtr<CxxString>", "x.as_bytes()", 0), ("UniquePtr<CxxString>", "x.to_str()", 0), ("UniquePtr<CxxString>", "x.to_string_lossy()", 0), ("UniquePtr<CxxString>", "x.as_c_str()", 0), ("UniquePtr<CxxString>", "x.to_string()", None), ("UniquePtr<CxxString>", "x.as_ptr()", None), ("UniquePtr<CxxString>", "x.pin_mut()", 1), ("UniquePtr<CxxString>", "x.len()", None),
        ("Pin<Box<cxx::private::StackString>>", "", 0),
        ("cxx::Exception", "x.what()", 0), ("cxx::Exception", "x.to_string()", None),
    ]
    acc = [a for a in acc if a[1]]
    mods, want = [], []
    for owner, e, ex in acc:
        for name, body, ok in (
            ("used", "let mut x: {O} = mk(); let r = {E}; us(r);", True),
            ("outlives its owner", "let r; {{ let mut x: {O} = mk(); r = {E}; }} us(r);", ex is None),
            ("used after the owner is moved", "let mut x: {O} = mk(); let r = {E}; let y = x; us(r);", ex is None),
            ("used after the owner is replaced", "let mut x: {O} = mk(); let r = {E}; x = mk(); us(r);", ex is None),
            ("used after the owner is dropped", "let mut x: {O} = mk(); let r = {E}; drop(x); us(r);", ex is None),
            ("used while the owner is read", "let mut x: {O} = mk(); let r = {E}; us(&x); us(r);", ex != 1),
            ("taken twice", "let mut x: {O} = mk(); let r = {E}; let q = {E}; us(r); us(q);", ex != 1),
            ("taken twice, one after the other", "let mut x: {O} = mk(); us({E}); us({E});", True),
            ("static", "let mut x: {O} = mk(); st({E});", ex is None),
            ("of a static", "let x: &'static mut {O} = mk(); st({E});", True if ex is not None else True),
            ("through a shared reference", "let x: &{O} = mk(); us({E});", ex != 1 and "pin_mut" not in e),
            ("and a mutable access", "let mut x: {O} = mk(); let r = {E}; us(&mut x); us(r);", ex is None),
        ):
            if name == "of a static" and ex is not None and ("pin_mut().i" in e or "pin_mut().as" in e) or name == "of a static" and "|s|" in e:
                continue
            mods.append("pub fn f() { " + body.format(O=owner, E=e) + " }")
            want.append((ok, "%s of %s %s" % (e, owner, name)))
    judge(ck, g, mods, want, "borrow", "borrowing through the library")


# ---------------------------------------------------------------- borrowing through functions of a bridge
# type with {l}: the lifetime -> (owner type, expression of the argument made from x)
ARGS = {
    "&{l}C": ("UniquePtr<C>", "{x}.as_ref().unwrap()"), "Pin<&{l}mut C>": ("UniquePtr<C>", "{x}.pin_mut()"), "&{l}S": ("S", "&{x}"), "&{l}mut S": ("S", "&mut {x}"), "&{l}str": ("String", "&*{x}"), "&{l}[u8]": ("Vec<u8>", "&*{x}"), "&{l}mut [u8]": ("Vec<u8>", "&mut *{x}"), "&{l}String": ("String", "&{x}"),
    "&{l}CxxVector<u8>": ("UniquePtr<CxxVector<u8>>", "&*{x}"), "Sl<{l}>": ("String", "Sl {{ s: &*{x} }}"), "UniquePtr<L<{l}>>": ("String", "tie(&{x})"), "Box<RL<{l}>>": ("String", "Box::new(RL(&*{x}))"), "S": ("S", "mk::<S>()"), "&{l}Vec<u8>": ("Vec<u8>", "&{x}"), "&{l}L<{l}>": ("String", "&*tie(&{x})"), "&{l}R": ("R", "&{x}"), "&{l}mut R": ("R", "&mut {x}"), "u8": ("u8", "{x}"),
}
RETS = ["&{l}C", "Pin<&{l}mut C>", "&{l}str", "&{l}[u8]", "&{l}mut [u8]", "&{l}String", "Sl<{l}>", "UniquePtr<L<{l}>>", "Box<RL<{l}>>", "Result<&{l}str>", "Result<Sl<{l}>>", "Result<Pin<&{l}mut C>>", "&{l}R", "&{l}mut S", "S", "Result<&{l}C>"]


def lt(t, l):
    """Type t with the lifetime l, or elided."""
    if "{l}" not in t:
        return t if not l else None
    if not l:
        if re.search(r"<\{l\}>", t):
            return None
        return t.replace("{l}", "")
    return re.sub(r"&\{l\}", "&%s " % l, t).replace("{l}", l)


def functions(ck, g):
    """The same signature in a bridge and in Rust: what callers may do has to be the same."""
    sigs = []   # (args, ret, lifetimes declared)
    L = ("", "'a", "'b", "'static")

    def put(al, ret):
        if any(a is None for _, a in al) or ret is None:
            return
        used = sorted(set(re.findall(r"'[ab]", "".join(a for _, a in al) + ret)))
        decl = set(re.findall(r"'[ab]", "".join(a for _, a in al)))
        if set(used) - decl or "'b" in used and "'a" not in used:
            return
        sigs.append((al, ret, used))
    for (a, r), la, lr in itertools.product(itertools.product(ARGS, RETS), ("", "'a", "'static"), ("", "'a", "'static")):
        put([(a, lt(a, la))], lt(r, lr))
    small_a = ["&{l}C", "Pin<&{l}mut C>", "&{l}str", "Sl<{l}>", "&{l}mut [u8]", "u8"] if ck.quick else ["&{l}C", "Pin<&{l}mut C>", "&{l}str", "Sl<{l}>", "&{l}mut [u8]", "u8", "UniquePtr<L<{l}>>", "&{l}S", "&{l}CxxVector<u8>", "&{l}mut R"]
    small_r = ["&{l}str", "Pin<&{l}mut C>", "Sl<{l}>"] if ck.quick else ["&{l}str", "Pin<&{l}mut C>", "Sl<{l}>", "&{l}C", "UniquePtr<L<{l}>>", "Result<&{l}str>", "&{l}mut [u8]"]
    for (a, b, r), la, lb, lr in itertools.product(itertools.product(small_a, small_a, small_r), ("", "'a"), ("", "'a", "'b"), ("", "'a", "'b")):
        put([(a, lt(a, la)), (b, lt(b, lb))], lt(r, lr))
    # receivers
    recv = [("self: &{l}C", "&{l}C"), ("self: Pin<&{l}mut C>", "Pin<&{l}mut C>"), ("&{l}self", "&{l}C")]
    methods = []
    for (rv, ra), r, la, lr in itertools.product(recv, RETS, ("", "'a"), ("", "'a", "'static")):
        if lt(ra, la) is None or lt(r, lr) is None or lr == "'a" and la != "'a":
            continue
        methods.append(([(ra, lt(ra, la))], lt(r, lr), ["'a"] if la else [], rv))
    for (rv, ra), a, r, la, lb, lr in itertools.product(recv[:2], small_a[:4], small_r, ("", "'a"), ("", "'a", "'b"), ("", "'a", "'b")):
        if None in (lt(ra, la), lt(a, lb), lt(r, lr)):
            continue
        used = sorted(set(re.findall(r"'[ab]", lt(ra, la) + lt(a, lb) + lt(r, lr))))
        if set(used) - set(re.findall(r"'[ab]", lt(ra, la) + lt(a, lb))) or "'b" in used and "'a" not in used:
            continue
        methods.append(([(ra, lt(ra, la)), (a, lt(a, lb))], lt(r, lr), used, rv))
    todo = [(s[0], s[1], s[2], None) for s in sigs] + methods

    def gen(used):
        return "<%s>" % ", ".join(used) if used else ""

    def bridge(s, i, uns=""):
        al, r, used, rv = s
        ps = ["x%d: %s" % (k, a) for k, (_, a) in enumerate(al)]
        if rv:
            t = al[0][1]
            ps[0] = "self: " + t if rv.startswith("self") else re.sub(r"C$", "self", t)
        return '%sfn f%d%s(%s) -> %s;' % (uns, i, gen(used), ", ".join(ps), r)
    # which of them a bridge may have at all
    head_gen = "struct S { x: u8, s: String } struct Sl<'a> { s: &'a str } extern \"Rust\" { type R; type RL<'a>; } unsafe extern \"C++\" { type C; type L<'a>; %s }"
    acc = g.batch(["#[cxx::bridge]\nmod ffi { %s }" % (head_gen % bridge(s, i)) for i, s in enumerate(todo)])
    idx = [i for i, r in enumerate(acc) if r.ok]

    def plain(s, i, uns=""):
        al, r, used, rv = s
        r = re.sub(r"^Result<(.*)>$", r"Result<\1, cxx::Exception>", r)
        ps = ["x%d: %s" % (k, a) for k, (_, a) in enumerate(al)]
        if rv:
            ps[0] = "self: " + al[0][1]
            return "pub trait P%d { } impl C { pub %sfn p%d%s(%s) -> %s { loop {} } }" % (i, uns, i, gen(used), ", ".join(ps), r)
        return "pub %sfn p%d%s(%s) -> %s { loop {} }" % (uns, i, gen(used), ", ".join(ps), r)
    # one bridge and one plain module for all of them
    ok_plain = g.verdicts([plain(todo[i], i) for i in idx], PRE, tag="plain", per=400, rounds=20)
    # and in a bridge of their own they are as good as in Rust
    wrap = ["pub struct R; pub struct RL<'a>(&'a str); #[cxx::bridge] pub mod br { %s }" % (head_gen % bridge(todo[i], i)) for i in idx]
    ok_br = g.verdicts(wrap, "", tag="own", per=400, rounds=20)
    for i, m, o, w in zip(idx, ok_plain, ok_br, wrap):
        if bool(m) != bool(o):
            # which signature it is, without the names of lifetimes and arguments that have none
            al, r, used, rv = todo[i]
            key = "sig:fn(%s)->%s" % (",".join(re.sub(r"\{l\} ?|<\{l\}>", "", a) for a, _ in al if "{l}" in a), r)
            print("KEY", key) if os.environ.get("KEYS") else None
            ck.violation("%s is %s in a bridge, in Rust it is %s" % (bridge(todo[i], i), "refused: " + o[0] if o else "accepted", "refused: " + m[0] if m else "accepted"), w, key=key.replace(" ", "_") if o and "E0106" in o[0] else "sig:" + bridge(todo[i], 0).replace(" ", "_"))
    idx = [i for i, m, o in zip(idx, ok_plain, ok_br) if not m and not o]
    ck.log("%d signatures, %d of them allowed" % (len(todo), len(idx)))
    # snippets
    progs = []   # (i, name, text with FN)
    for i in idx:
        al, r, used, rv = todo[i]
        n = len(al)
        own = [ARGS[a][0] for a, _ in al]
        ex = [ARGS[a][1] for a, _ in al]
        args = [e.format(x="x%d" % k) for k, e in enumerate(ex)]
        new = ["let mut x%d: %s = mk();" % (k, o) for k, o in enumerate(own)]
        call = "FN(%s)" % ", ".join(args)
        if "{l}" not in "".join(a for a, _ in al) and False:
            continue
        progs.append((i, "call", " ".join(new) + " us(%s);" % call))
        progs.append((i, "static", " ".join(new) + " st(%s);" % call))
        progs.append((i, "twice", " ".join(new) + " let a = %s; let b = %s; us(a); us(b);" % (call, call)))
        for k in range(n):
            if own[k] == "u8":
                continue
            rest = " ".join(new[:k] + new[k + 1:])
            progs.append((i, "outlive %d" % k, "%s let r; { %s r = %s; } us(r);" % (rest, new[k], call)))
            progs.append((i, "replace %d" % k, "%s let r = %s; x%d = mk(); us(r);" % (" ".join(new), call, k)))
            if not ck.quick or n == 1:
                progs.append((i, "read %d" % k, "%s let r = %s; us(&x%d); us(r);" % (" ".join(new), call, k)))
    if ck.quick:
        # of two arguments every other one
        progs = [p for p in progs if len(todo[p[0]][0]) == 1 or p[1] in ("call",) or p[1].startswith("outlive") or (p[0] + len(p[1])) % 3 == 0]
    size = 160
    groups = [idx[k:k + size] for k in range(0, len(idx), size)]
    which = {i: n for n, gr in enumerate(groups) for i in gr}
    counts = {"same": 0, "refused": 0}

    def one(n):
        gr = groups[n]
        pre = PRE.replace("//FNS", "\n".join("pub " + bridge(todo[i], i) for i in gr))
        pre += "pub mod plain { use super::*; %s }\n" % "\n".join(plain(todo[i], i) for i in gr)
        mine = [p for p in progs if which[p[0]] == n]
        mods = []
        for i, name, t in mine:
            if todo[i][3]:
                for f in ("C::f%d" % i, "C::p%d" % i):
                    mods.append("pub fn f() { %s }" % t.replace("FN", f))
            else:
                for f in ("ffi::f%d" % i, "plain::p%d" % i):
                    mods.append("pub fn f() { %s }" % t.replace("FN", f))
        return mine, mods, pre
    out = [one(n) for n in range(len(groups))]
    for n, (mine, mods, pre) in enumerate(out):
        v = g.verdicts(mods, pre, tag="fn%d" % n, per=len(mods) // 4 + 1, rounds=30)
        for k, (i, name, t) in enumerate(mine):
            b, p = v[2 * k], v[2 * k + 1]
            counts["same"] += 1
            counts["refused"] += bool(p)
            if bool(b) != bool(p):
                ck.violation("%s: %s is %s, of the same Rust function it is %s" % (bridge(todo[i], i), name, "refused: " + b[0] if b else "accepted", "refused: " + p[0] if p else "accepted"), mods[2 * k], key="fn:" + (bridge(todo[i], 0) + name).replace(" ", "_"))
    ck.log("%d programs with functions of a bridge, %d to be refused" % (counts["same"], counts["refused"]))
    ck.count("evaluations", 2 * counts["same"])
    ck.count("distinct_nontrivial", counts["same"])
    ck.sample(bridge(todo[idx[len(idx) // 2]], 0))


# ---------------------------------------------------------------- unsafe and visibility
def access(ck, g):
    vis = ["", "pub ", "pub(crate) ", "pub(self) ", "pub(super) ", "pub(in crate) "]
    mods, want = [], []
    from_ = {"inside": True, "sibling": False, "parent": False}
    for v in vis:
        # visible from: the module around the bridge, another part of the crate
        # for items of mod ffi: private and pub(self) only inside ffi
        seen = v.strip() not in ("", "pub(self)")
        wide = v.strip() in ("pub", "pub(crate)", "pub(in crate)")
        for item, decl, use in (
            ("function", 'unsafe extern "C++" { %sfn f(); }', "{p}::f();"), ("unsafe function", 'unsafe extern "C++" { %sunsafe fn f(); }', "unsafe {{ {p}::f() }};"), ("fallible function", 'unsafe extern "C++" { %sfn f() -> Result<()>; }', "us({p}::f());"), ("function of strings", 'unsafe extern "C++" { %sfn f(a: &str) -> String; }', "us({p}::f(\"\"));"),
            ("opaque type", 'unsafe extern "C++" { %stype T; }', "let t: &{p}::T;"), ("struct", "%sstruct T { x: u8 }", "let t: {p}::T;"), ("enum", "%senum T { A }", "let t: {p}::T;"),
            ("struct field", "pub struct T { %sx: u8 }", "us(mk::<{p}::T>().x);"), ("struct made", "pub struct T { pub y: u8, %sx: u8 }", "let t = {p}::T {{ x: 1, y: 2 }};"), ("method", 'unsafe extern "C++" { pub type T; %sfn f(self: &T); }', "mk::<&{p}::T>().f();"), ("mutable method", 'unsafe extern "C++" { pub type T; %sfn f(self: Pin<&mut T>); }', "mk::<Pin<&mut {p}::T>>().f();"),
        ):
            if v.strip() not in ("pub", "pub(crate)", "pub(in crate)"):
                continue   # items of a bridge are public whatever they say, which is not documented
            mods.append("#[cxx::bridge] mod ffi { %s } pub fn f() { %s }" % (decl % v, use.format(p="ffi")))
            want.append((seen, "%s%s used around the bridge" % (v, item)))
            mods.append("mod inner { #[cxx::bridge] pub mod ffi { %s } } pub fn f() { %s }" % (decl % v, use.format(p="inner::ffi")))
            want.append((wide, "%s%s used elsewhere" % (v, item)))
        # the module's own visibility
        mods.append('mod inner { #[cxx::bridge] %smod ffi { unsafe extern "C++" { pub fn f(); } } } pub fn f() { inner::ffi::f(); }' % v)
        want.append((v.strip() not in ("", "pub(self)"), "a function of a %smodule" % v))
    # unsafe
    sigs = ["()", "(x: u8)", "(x: &str) -> String", "(x: &C)", "() -> Result<()>", "(x: Vec<u8>) -> Result<UniquePtr<C>>", "(x: fn(u8) -> u8)", "(x: S) -> S"]
    for s, uns, recv in itertools.product(sigs, (False, True), (None, "self: &C", "self: Pin<&mut C>")):
        if recv:
            s = "(" + recv + (", " + s[1:] if s[1] != ")" else s[1:])
        n = s.count(": ")
        call = ("ffi::C::f" if recv else "ffi::f") + "(" + ", ".join("mk()" for _ in range(n)) + ")"
        for blk in (False, True):
            mods.append('#[cxx::bridge] mod ffi { pub struct S { x: u8, s: String } unsafe extern "C++" { pub type C; pub %sfn f%s; } } pub fn f() { %s; }' % ("unsafe " if uns else "", s, "let _ = unsafe { %s }" % call if blk else "let _ = " + call))
            want.append((blk or not uns, "%sfn f%s called %s" % ("unsafe " if uns else "", s, "in unsafe" if blk else "safely")))
        if not recv:
            # a Rust function that is unsafe has to be declared so, and the other way round
            for dec in (False, True):
                r = s.split("->")[1].strip() if "->" in s else ""
                body = "pub %sfn f%s {{ loop {{}} }}".format() % ("unsafe " if uns else "", s.replace("-> Result<()>", "-> Result<(), String>").replace("-> Result<UniquePtr<C>>", "-> Result<UniquePtr<C>, String>"))
                mods.append('use br::{S, C}; %s #[cxx::bridge] mod br { struct S { x: u8, s: String } unsafe extern "C++" { type C; } extern "Rust" { %sfn f%s; } }' % (body, "unsafe " if dec else "", s))
                want.append((dec or not uns, "%sfn f%s in Rust declared %s" % ("unsafe " if uns else "", s, "unsafe" if dec else "safe")))
    want = [w for w, m in zip(want, mods) if "x: fn" not in m or "extern \"Rust\"" not in m]
    mods = [m for m in mods if "x: fn" not in m or "extern \"Rust\"" not in m]
    judge(ck, g, mods, want, "access", "unsafe and visibility")


def run(ck):
    g = gk.Gen(ck)
    parts = os.environ.get("C23", "").split(",")
    for f in (autotraits, moving, library, functions, access):
        if parts == [""] or f.__name__ in parts:
            f(ck, g)
    ck.cov["rule"] = "distinct programs with their own verdict of rustc"
