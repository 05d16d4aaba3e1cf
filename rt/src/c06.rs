//! C06: CxxString as a value, and let_cxx_string! with every way an
//! initialiser can finish.
use crate::engine::{panics, rust_system, System};
use crate::ensure;
use cxx::{let_cxx_string, CxxString};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::pin::Pin;

#[cxx::bridge(namespace = "c06")]
mod ffi {
    unsafe extern "C++" {
        include!("rt/cc/c06.hpp");
        fn view(s: &CxxString, b: &[u8]) -> bool;
        fn cap(s: &CxxString) -> usize;
        fn assign(s: Pin<&mut CxxString>, b: &[u8]);
        fn append(s: Pin<&mut CxxString>, b: &str);
        fn resize(s: Pin<&mut CxxString>, n: usize, c: u8);
        fn swap_strings(a: Pin<&mut CxxString>, b: Pin<&mut CxxString>);
        fn move_assign(a: Pin<&mut CxxString>, b: Pin<&mut CxxString>);
        fn copy_assign(a: Pin<&mut CxxString>, b: &CxxString);
        fn erase_front(a: Pin<&mut CxxString>);
        fn shrink(a: Pin<&mut CxxString>);
        fn poison();
    }
}
type R<T = ()> = Result<T, String>;
const MAX: usize = 60;

fn hash(s: &CxxString) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
fn agree(s: &CxxString, m: &[u8]) -> R {
    ensure!(s.len() == m.len() && s.is_empty() == m.is_empty());
    ensure!(s.as_bytes() == m, "{:?} vs {:?}", s.as_bytes(), m);
    ensure!(s.as_bytes().as_ptr() == s.as_ptr());
    ensure!(ffi::view(s, m));
    let nul = m.iter().position(|b| *b == 0).unwrap_or(m.len());
    ensure!(s.as_c_str().to_bytes() == &m[..nul]);
    ensure!(s.to_str() == std::str::from_utf8(m));
    let lossy = String::from_utf8_lossy(m);
    ensure!(s.to_string_lossy() == lossy);
    ensure!(matches!(s.to_string_lossy(), Cow::Borrowed(_)) == std::str::from_utf8(m).is_ok());
    ensure!(s.to_string() == lossy);
    let mut d = String::from("\"");
    for c in m.utf8_chunks() {
        let x = format!("{:?}", c.valid());
        d.push_str(&x[1..x.len() - 1]);
        for x in c.invalid() {
            write!(d, "\\x{:02x}", x).unwrap();
        }
    }
    d.push('"');
    ensure!(format!("{:?}", s) == d);
    for p in ["", "a", "é", "aa"] {
        ensure!((*s == *p) == (m == p.as_bytes()) && (*p == *s) == (m == p.as_bytes()));
    }
    Ok(())
}
fn agree2(a: &CxxString, b: &CxxString, ma: &[u8], mb: &[u8]) -> R {
    ensure!((a == b) == (ma == mb));
    ensure!((a != b) == (ma != mb));
    ensure!(a.cmp(b) == ma.cmp(mb) && a.partial_cmp(b) == Some(ma.cmp(mb)));
    ensure!((a < b) == (ma < mb) && (a >= b) == (ma >= mb));
    ensure!(ma != mb || hash(a) == hash(b));
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    PushStr(usize, &'static str),
    PushBytes(usize, &'static [u8]),
    Clear(usize),
    Reserve(usize, usize),
    ReserveOverflow(usize),
    Fmt(usize),
    FmtChar(usize),
    Io(usize),
    PushOther(usize),
    Assign(usize, &'static [u8]),
    Append(usize, &'static str),
    Resize(usize, usize, u8),
    Erase(usize),
    Shrink(usize),
    CopyFrom(usize),
    MoveFrom(usize),
    Swap,
}
use Op::*;
fn ops() -> Vec<Op> {
    let mut v = vec![];
    for i in 0..2 {
        v.extend([
            PushStr(i, ""), PushStr(i, "a"), PushStr(i, "é"), PushStr(i, "0123456789abcdef"),
            PushBytes(i, b"\xff"), PushBytes(i, b"\0z"), PushBytes(i, &[0xe2, 0x82]),
            Clear(i), Reserve(i, 0), Reserve(i, 7), Reserve(i, 40), ReserveOverflow(i),
            Fmt(i), FmtChar(i), Io(i), PushOther(i), Assign(i, b"cpp"), Append(i, "->"), Resize(i, 16, 0x41), Resize(i, 1, 0),
            Erase(i), Shrink(i), CopyFrom(i), MoveFrom(i),
        ]);
    }
    v.push(Swap);
    v
}

fn history(all: &[Op], t: &[u16], key: &mut Vec<u8>) -> R<bool> {
    let_cxx_string!(a = "");
    let heap = cxx::UniquePtr::<CxxString>::null(); // unused kind check
    ensure!(heap.is_null());
    let_cxx_string!(b = b"b\x80".to_vec());
    let mut s: [Pin<&mut CxxString>; 2] = [a, b];
    let mut m: [Vec<u8>; 2] = [vec![], b"b\x80".to_vec()];
    let at = [&*s[0] as *const CxxString, &*s[1] as *const CxxString];
    let mut min = [0usize; 2];
    for o in t {
        match all[*o as usize] {
            PushStr(i, x) => {
                s[i].as_mut().push_str(x);
                m[i].extend(x.as_bytes());
            }
            PushBytes(i, x) => {
                s[i].as_mut().push_bytes(x);
                m[i].extend(x);
            }
            Clear(i) => {
                s[i].as_mut().clear();
                m[i].clear();
            }
            Reserve(i, n) => {
                s[i].as_mut().reserve(n);
                min[i] = min[i].max(m[i].len() + n);
                ensure!(ffi::cap(&s[i]) >= m[i].len() + n);
            }
            ReserveOverflow(i) => {
                if m[i].is_empty() {
                    return Ok(false);
                }
                let p = panics(|| s[i].as_mut().reserve(usize::MAX));
                ensure!(p);
            }
            Fmt(i) => {
                std::fmt::Write::write_fmt(&mut s[i], format_args!("{}-{}", 7, "x")).map_err(|e| e.to_string())?;
                m[i].extend(b"7-x");
            }
            FmtChar(i) => {
                s[i].write_char('\u{1f980}').map_err(|e| e.to_string())?;
                m[i].extend("\u{1f980}".as_bytes());
            }
            Io(i) => {
                let n = std::io::Write::write(&mut s[i], b"\xc3io").map_err(|e| e.to_string())?;
                ensure!(n == 3);
                s[i].write_all(b"").map_err(|e| e.to_string())?;
                s[i].flush().map_err(|e| e.to_string())?;
                m[i].extend(b"\xc3io");
            }
            PushOther(i) => {
                let o = s[1 - i].to_string_lossy().into_owned();
                s[i].as_mut().push_str(&o);
                let o = String::from_utf8_lossy(&m[1 - i]).into_owned();
                m[i].extend(o.as_bytes());
            }
            Assign(i, x) => {
                ffi::assign(s[i].as_mut(), x);
                m[i] = x.to_vec();
                min[i] = 0;
            }
            Append(i, x) => {
                ffi::append(s[i].as_mut(), x);
                m[i].extend(x.as_bytes());
            }
            Resize(i, n, c) => {
                ffi::resize(s[i].as_mut(), n, c);
                m[i].resize(n, c);
            }
            Erase(i) => {
                ffi::erase_front(s[i].as_mut());
                if !m[i].is_empty() {
                    m[i].remove(0);
                }
            }
            Shrink(i) => {
                ffi::shrink(s[i].as_mut());
                min[i] = 0;
            }
            CopyFrom(i) => {
                let [p, q] = &mut s;
                let (d, f) = if i == 0 { (p, q) } else { (q, p) };
                ffi::copy_assign(d.as_mut(), f);
                m[i] = m[1 - i].clone();
                min[i] = 0;
            }
            MoveFrom(i) => {
                let [p, q] = &mut s;
                let (d, f) = if i == 0 { (p, q) } else { (q, p) };
                ffi::move_assign(d.as_mut(), f.as_mut());
                m[i] = std::mem::take(&mut m[1 - i]);
                min = [0; 2];
            }
            Swap => {
                let [p, q] = &mut s;
                ffi::swap_strings(p.as_mut(), q.as_mut());
                m.swap(0, 1);
                min = [0; 2];
            }
        }
        if m.iter().any(|x| x.len() > MAX) {
            return Ok(false);
        }
    }
    for i in 0..2 {
        ensure!(&*s[i] as *const CxxString == at[i]);
        agree(&s[i], &m[i])?;
        ensure!(ffi::cap(&s[i]) >= min[i]);
        key.extend(&m[i]);
        key.extend([b'|', ffi::cap(&s[i]) as u8]);
    }
    agree2(&s[0], &s[1], &m[0], &m[1])?;
    agree2(&s[1], &s[0], &m[1], &m[0])?;
    agree2(&s[0], &s[0], &m[0], &m[0])?;
    Ok(true)
}

// ---- let_cxx_string!: nested scopes, one per op
#[derive(Clone, Copy, Debug)]
enum Init {
    Str(&'static str),
    Owned(usize),
    Bytes(&'static [u8]),
    Array,
    Temp,
    CowTemp,
    VecB,
    MutBinding,
    BoxRef,
    // the initialiser does not produce a value
    Panic,
    PanicAsRef,
    Return,
    Question,
    Break,
    Continue,
    // the scope is left with the string alive
    BodyPanic,
    Loop3,
}
use Init::*;
const INITS: [Init; 20] = [
    Str(""), Str("s"), Str("a string too long for the small buffer"), Owned(3), Owned(300), Bytes(b"\0\xff\0"), Bytes(b""), Array, Temp, CowTemp, VecB, MutBinding, BoxRef,
    Panic, PanicAsRef, Return, Question, Break, BodyPanic, Loop3,
];
struct Bad;
impl AsRef<[u8]> for Bad {
    fn as_ref(&self) -> &[u8] {
        panic!("as_ref")
    }
}
struct Counted<'a>(&'a std::cell::Cell<i32>);
impl<'a> Counted<'a> {
    fn new(c: &'a std::cell::Cell<i32>) -> Self {
        c.set(c.get() + 1);
        Counted(c)
    }
    fn text(&self) -> &str {
        "from a temporary"
    }
}
impl Drop for Counted<'_> {
    fn drop(&mut self) {
        self.0.set(self.0.get() - 1)
    }
}
/// outer: strings alive in enclosing scopes with their expected contents
fn scope(t: &[u16], outer: &mut Vec<(*const CxxString, Vec<u8>)>, depth: &mut u32) -> R {
    ffi::poison();
    let Some((&o, rest)) = t.split_first() else {
        for (p, m) in outer.iter() {
            agree(unsafe { &**p }, m)?;
        }
        return Ok(());
    };
    *depth += 1;
    macro_rules! body {
        ($s:ident, $m:expr) => {{
            let m: Vec<u8> = $m.to_vec();
            agree(&$s, &m)?;
            outer.push((&*$s as *const CxxString, m.clone()));
            let r = scope(rest, outer, depth);
            outer.pop();
            r?;
            agree(&$s, &m)
        }};
    }
    fn question() -> R<String> {
        Err(String::new())
    }
    let n = std::cell::Cell::new(0);
    match INITS[o as usize] {
        Str(x) => {
            let_cxx_string!(s = x);
            body!(s, x.as_bytes())
        }
        Owned(k) => {
            let v = "y".repeat(k);
            let_cxx_string!(s = v.clone());
            body!(s, v.as_bytes())
        }
        Bytes(x) => {
            let_cxx_string!(s = x);
            body!(s, x)
        }
        Array => {
            let_cxx_string!(s = [1u8, 2, 255]);
            body!(s, [1u8, 2, 255])
        }
        Temp => {
            let_cxx_string!(s = Counted::new(&n).text().trim());
            body!(s, b"from a temporary")
        }
        CowTemp => {
            let_cxx_string!(s = &*String::from_utf8_lossy(b"a\xffb"));
            body!(s, "a\u{fffd}b".as_bytes())
        }
        VecB => {
            let_cxx_string!(s = vec![0u8; 33],);
            body!(s, [0u8; 33])
        }
        MutBinding => {
            let_cxx_string!(s = "m");
            s.as_mut().push_str("ore");
            body!(s, b"more")
        }
        BoxRef => {
            let b: Box<str> = "boxed".into();
            let_cxx_string!(s = &*b);
            body!(s, b"boxed")
        }
        Panic => {
            let p = panics(|| {
                ffi::poison();
                let_cxx_string!(s = if *depth > 0 { panic!("init") } else { "never" });
                s.len()
            });
            ensure!(p);
            scope(rest, outer, depth)
        }
        PanicAsRef => {
            let p = panics(|| {
                ffi::poison();
                let_cxx_string!(s = Bad);
                s.len()
            });
            ensure!(p);
            scope(rest, outer, depth)
        }
        Return => {
            let f = |d: u32| -> usize {
                let_cxx_string!(s = if d > 0 { return 77 } else { "never" });
                s.len()
            };
            ffi::poison();
            ensure!(f(*depth) == 77);
            scope(rest, outer, depth)
        }
        Question => {
            let f = || -> R<usize> {
                let_cxx_string!(s = question()?);
                Ok(s.len())
            };
            ffi::poison();
            ensure!(f().is_err());
            scope(rest, outer, depth)
        }
        Break => {
            ffi::poison();
            let mut k = 0;
            loop {
                k += 1;
                if k == 2 {
                    let_cxx_string!(s = if k > 1 { break } else { "never" });
                    ensure!(s.len() == 99);
                }
            }
            for k in 0..4 {
                let_cxx_string!(s = if k % 2 == 0 { continue } else { "odd one, longer than a small buffer" });
                ensure!(s.len() == 35);
            }
            scope(rest, outer, depth)
        }
        Continue => unreachable!(),
        BodyPanic => {
            let p = panics(|| {
                let_cxx_string!(s = "alive while unwinding, and not small");
                if s.len() == 36 {
                    panic!("body");
                }
            });
            ensure!(p);
            scope(rest, outer, depth)
        }
        Loop3 => {
            let mut all = 0;
            for k in 0..3usize {
                let_cxx_string!(s = "z".repeat(k * 20));
                ensure!(s.len() == k * 20);
                all += s.len();
            }
            ensure!(all == 60);
            scope(rest, outer, depth)
        }
    }?;
    ensure!(n.get() == 0, "temporaries of the initialiser dropped");
    Ok(())
}

pub fn systems() -> Vec<System> {
    let all = ops();
    let names = all.iter().map(|o| format!("{o:?}")).collect();
    let mut v = Vec::new();
    v.push(rust_system("cxxstring-ops", names, move |t, k| history(&all, t, k)));
    v.push(rust_system("let_cxx_string", INITS.iter().map(|o| format!("{o:?}")).collect(), |t, k| {
        let mut outer = Vec::with_capacity(16);
        scope(t, &mut outer, &mut 0)?;
        k.extend(t.iter().flat_map(|x| x.to_le_bytes()));
        Ok(true)
    }));
    v
}
