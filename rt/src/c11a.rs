//! Generated by gen_c11.py.
//! C11: Result and exceptions under the default trycatch.
use crate::engine::{rust_system, System};
use crate::ensure;
use cxx::{CxxString, SharedPtr, UniquePtr};
use std::cell::{Cell, RefCell};
use std::fmt::{Display, Formatter, Write as _};
pub use ffi::{CObj, En, Sh, Small, mkcobj, mkshared, mkstr, static_cobj};
pub struct RObj(i32);
static STATIC_ROBJ: RObj = RObj(77);
fn static_robj() -> &'static RObj { &STATIC_ROBJ }
fn mkrobj(k: i32) -> Box<RObj> { Box::new(RObj(k)) }
fn rval(x: &RObj) -> i32 { x.0 }
#[cxx::bridge(namespace = "c11a")]
mod ffi {
    struct Sh { s: String, b: Box<RObj>, n: u8 }
    struct Small { a: u8, b: u8 }
    #[derive(Debug)]
    enum En { A, B }
    unsafe extern "C++" {
        include!("rt/cc/c11a.hpp");
        type CObj;
        fn cval(self: &CObj) -> i32;
        fn mkcobj(k: i32) -> UniquePtr<CObj>;
        fn mkshared(k: i32) -> SharedPtr<CObj>;
        fn mkstr() -> UniquePtr<CxxString>;
        fn static_cobj() -> *mut CObj;
        /// Throws an exception of the given kind.
        fn cthrow(kind: i32, msg: &[u8]) -> Result<()>;
        /// What C++ sees of an Err: 0 as expected, otherwise the failed step.
        fn csees(kind: i32, msg: &[u8]) -> i32;
        fn csees_other(kind: i32, msg: &str) -> i32;
        fn clevel(n: usize) -> Result<i32>;
        fn guards() -> i32;
        fn croot(out: &mut String) -> i32;
        fn clog() -> i32;
        fn wild(k: i32);
        fn wild_result(k: i32) -> Result<String>;
        fn cret_unit(kind: i32, msg: &[u8]) -> Result<()>;
        fn cdrive_unit(kind: i32, msg: &[u8]) -> i32;
        fn cret_u8(kind: i32, msg: &[u8]) -> Result<u8>;
        fn cdrive_u8(kind: i32, msg: &[u8]) -> i32;
        fn cret_i128less(kind: i32, msg: &[u8]) -> Result<i64>;
        fn cdrive_i128less(kind: i32, msg: &[u8]) -> i32;
        fn cret_f64(kind: i32, msg: &[u8]) -> Result<f64>;
        fn cdrive_f64(kind: i32, msg: &[u8]) -> i32;
        fn cret_boolean(kind: i32, msg: &[u8]) -> Result<bool>;
        fn cdrive_boolean(kind: i32, msg: &[u8]) -> i32;
        fn cret_string(kind: i32, msg: &[u8]) -> Result<String>;
        fn cdrive_string(kind: i32, msg: &[u8]) -> i32;
        fn cret_str(kind: i32, msg: &[u8]) -> Result<&'static str>;
        fn cdrive_str(kind: i32, msg: &[u8]) -> i32;
        fn cret_slice(kind: i32, msg: &[u8]) -> Result<&'static [u16]>;
        fn cdrive_slice(kind: i32, msg: &[u8]) -> i32;
        fn cret_boxed(kind: i32, msg: &[u8]) -> Result<Box<RObj>>;
        fn cdrive_boxed(kind: i32, msg: &[u8]) -> i32;
        fn cret_vecn(kind: i32, msg: &[u8]) -> Result<Vec<u32>>;
        fn cdrive_vecn(kind: i32, msg: &[u8]) -> i32;
        fn cret_vecs(kind: i32, msg: &[u8]) -> Result<Vec<String>>;
        fn cdrive_vecs(kind: i32, msg: &[u8]) -> i32;
        fn cret_sh(kind: i32, msg: &[u8]) -> Result<Sh>;
        fn cdrive_sh(kind: i32, msg: &[u8]) -> i32;
        fn cret_small(kind: i32, msg: &[u8]) -> Result<Small>;
        fn cdrive_small(kind: i32, msg: &[u8]) -> i32;
        fn cret_en(kind: i32, msg: &[u8]) -> Result<En>;
        fn cdrive_en(kind: i32, msg: &[u8]) -> i32;
        fn cret_up(kind: i32, msg: &[u8]) -> Result<UniquePtr<CObj>>;
        fn cdrive_up(kind: i32, msg: &[u8]) -> i32;
        fn cret_upn(kind: i32, msg: &[u8]) -> Result<UniquePtr<CObj>>;
        fn cdrive_upn(kind: i32, msg: &[u8]) -> i32;
        fn cret_ups(kind: i32, msg: &[u8]) -> Result<UniquePtr<CxxString>>;
        fn cdrive_ups(kind: i32, msg: &[u8]) -> i32;
        fn cret_sp(kind: i32, msg: &[u8]) -> Result<SharedPtr<CObj>>;
        fn cdrive_sp(kind: i32, msg: &[u8]) -> i32;
        fn cret_arr(kind: i32, msg: &[u8]) -> Result<[u16; 3]>;
        fn cdrive_arr(kind: i32, msg: &[u8]) -> i32;
        fn cret_arrs(kind: i32, msg: &[u8]) -> Result<[String; 2]>;
        fn cdrive_arrs(kind: i32, msg: &[u8]) -> i32;
        fn cret_refr(kind: i32, msg: &[u8]) -> Result<&'static RObj>;
        fn cdrive_refr(kind: i32, msg: &[u8]) -> i32;
        fn cret_refc(kind: i32, msg: &[u8]) -> Result<&'static CObj>;
        fn cdrive_refc(kind: i32, msg: &[u8]) -> i32;
        fn cret_ptr(kind: i32, msg: &[u8]) -> Result<*mut CObj>;
        fn cdrive_ptr(kind: i32, msg: &[u8]) -> i32;
    }
    extern "Rust" {
        type RObj;
        fn mkrobj(k: i32) -> Box<RObj>;
        fn rval(x: &RObj) -> i32;
        fn static_robj() -> &'static RObj;
        fn rfail(kind: i32, msg: &[u8]) -> Result<()>;
        fn rfail_io(msg: &str) -> Result<String>;
        fn rfail_dyn(msg: &str) -> Result<Box<RObj>>;
        fn rfail_str(msg: &str) -> Result<&str>;
        fn rfail_fmt(msg: &str) -> Result<u8>;
        fn rfail_exc(msg: &str) -> Result<u8>;
        fn rlevel(n: usize) -> Result<i32>;
        fn action(n: usize) -> u8;
        fn rlog(n: i32);
        fn rret_unit(kind: i32, msg: &[u8]) -> Result<()>;
        fn rret_u8(kind: i32, msg: &[u8]) -> Result<u8>;
        fn rret_i128less(kind: i32, msg: &[u8]) -> Result<i64>;
        fn rret_f64(kind: i32, msg: &[u8]) -> Result<f64>;
        fn rret_boolean(kind: i32, msg: &[u8]) -> Result<bool>;
        fn rret_string(kind: i32, msg: &[u8]) -> Result<String>;
        fn rret_str(kind: i32, msg: &[u8]) -> Result<&'static str>;
        fn rret_slice(kind: i32, msg: &[u8]) -> Result<&'static [u16]>;
        fn rret_boxed(kind: i32, msg: &[u8]) -> Result<Box<RObj>>;
        fn rret_vecn(kind: i32, msg: &[u8]) -> Result<Vec<u32>>;
        fn rret_vecs(kind: i32, msg: &[u8]) -> Result<Vec<String>>;
        fn rret_sh(kind: i32, msg: &[u8]) -> Result<Sh>;
        fn rret_small(kind: i32, msg: &[u8]) -> Result<Small>;
        fn rret_en(kind: i32, msg: &[u8]) -> Result<En>;
        fn rret_up(kind: i32, msg: &[u8]) -> Result<UniquePtr<CObj>>;
        fn rret_upn(kind: i32, msg: &[u8]) -> Result<UniquePtr<CObj>>;
        fn rret_ups(kind: i32, msg: &[u8]) -> Result<UniquePtr<CxxString>>;
        fn rret_sp(kind: i32, msg: &[u8]) -> Result<SharedPtr<CObj>>;
        fn rret_arr(kind: i32, msg: &[u8]) -> Result<[u16; 3]>;
        fn rret_arrs(kind: i32, msg: &[u8]) -> Result<[String; 2]>;
        fn rret_refr(kind: i32, msg: &[u8]) -> Result<&'static RObj>;
        fn rret_refc(kind: i32, msg: &[u8]) -> Result<&'static CObj>;
        fn rret_ptr(kind: i32, msg: &[u8]) -> Result<*mut CObj>;
    }
}
/// Writes its text one character at a time.
pub struct Chunked(String);
impl Display for Chunked { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { for c in self.0.chars() { f.write_char(c)?; } Ok(()) } }
fn lossy(m: &[u8]) -> String { String::from_utf8_lossy(m).into_owned() }
fn rfail(kind: i32, msg: &[u8]) -> Result<(), Chunked> { if kind == 0 { Ok(()) } else { Err(Chunked(lossy(msg))) } }
fn rfail_io(msg: &str) -> Result<String, std::io::Error> { Err(std::io::Error::new(std::io::ErrorKind::Other, msg.to_owned())) }
fn rfail_dyn(msg: &str) -> Result<Box<RObj>, Box<dyn std::error::Error>> { Err(msg.into()) }
fn rfail_str(msg: &str) -> Result<&str, std::borrow::Cow<'static, str>> { Err(msg.to_owned().into()) }
struct Padded(String);
impl Display for Padded { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { write!(f, "{:>6}|{:?}", self.0, 1) } }
fn rfail_fmt(msg: &str) -> Result<u8, Padded> { Err(Padded(msg.to_owned())) }
fn rfail_exc(msg: &str) -> Result<u8, cxx::Exception> { ffi::cthrow(1, msg.as_bytes()).map(|_| 0) }
fn rret_unit(kind: i32, msg: &[u8]) -> Result<(), Chunked> { if kind == 0 { Ok(()) } else { Err(Chunked(lossy(msg))) } }
fn call_unit(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_unit(kind, msg).map(|x| true).map_err(|e| e.what().to_owned()) }
fn rret_u8(kind: i32, msg: &[u8]) -> Result<u8, Chunked> { if kind == 0 { Ok(200) } else { Err(Chunked(lossy(msg))) } }
fn call_u8(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_u8(kind, msg).map(|x| x == 200).map_err(|e| e.what().to_owned()) }
fn rret_i128less(kind: i32, msg: &[u8]) -> Result<i64, Chunked> { if kind == 0 { Ok(i64::MIN) } else { Err(Chunked(lossy(msg))) } }
fn call_i128less(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_i128less(kind, msg).map(|x| x == i64::MIN).map_err(|e| e.what().to_owned()) }
fn rret_f64(kind: i32, msg: &[u8]) -> Result<f64, Chunked> { if kind == 0 { Ok(-0.5) } else { Err(Chunked(lossy(msg))) } }
fn call_f64(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_f64(kind, msg).map(|x| x == -0.5).map_err(|e| e.what().to_owned()) }
fn rret_boolean(kind: i32, msg: &[u8]) -> Result<bool, Chunked> { if kind == 0 { Ok(true) } else { Err(Chunked(lossy(msg))) } }
fn call_boolean(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_boolean(kind, msg).map(|x| x).map_err(|e| e.what().to_owned()) }
fn rret_string(kind: i32, msg: &[u8]) -> Result<String, Chunked> { if kind == 0 { Ok("a string".to_owned()) } else { Err(Chunked(lossy(msg))) } }
fn call_string(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_string(kind, msg).map(|x| x == "a string").map_err(|e| e.what().to_owned()) }
fn rret_str(kind: i32, msg: &[u8]) -> Result<&'static str, Chunked> { if kind == 0 { Ok("a str") } else { Err(Chunked(lossy(msg))) } }
fn call_str(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_str(kind, msg).map(|x| x == "a str").map_err(|e| e.what().to_owned()) }
fn rret_slice(kind: i32, msg: &[u8]) -> Result<&'static [u16], Chunked> { if kind == 0 { Ok(&[1, 2, 3]) } else { Err(Chunked(lossy(msg))) } }
fn call_slice(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_slice(kind, msg).map(|x| x == [1, 2, 3]).map_err(|e| e.what().to_owned()) }
fn rret_boxed(kind: i32, msg: &[u8]) -> Result<Box<RObj>, Chunked> { if kind == 0 { Ok(Box::new(RObj(5))) } else { Err(Chunked(lossy(msg))) } }
fn call_boxed(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_boxed(kind, msg).map(|x| x.0 == 5).map_err(|e| e.what().to_owned()) }
fn rret_vecn(kind: i32, msg: &[u8]) -> Result<Vec<u32>, Chunked> { if kind == 0 { Ok(vec![1, 2]) } else { Err(Chunked(lossy(msg))) } }
fn call_vecn(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_vecn(kind, msg).map(|x| x == [1, 2]).map_err(|e| e.what().to_owned()) }
fn rret_vecs(kind: i32, msg: &[u8]) -> Result<Vec<String>, Chunked> { if kind == 0 { Ok(vec!["q".to_owned()]) } else { Err(Chunked(lossy(msg))) } }
fn call_vecs(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_vecs(kind, msg).map(|x| x == ["q"]).map_err(|e| e.what().to_owned()) }
fn rret_sh(kind: i32, msg: &[u8]) -> Result<Sh, Chunked> { if kind == 0 { Ok(Sh { s: "f".to_owned(), b: Box::new(RObj(6)), n: 9 }) } else { Err(Chunked(lossy(msg))) } }
fn call_sh(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_sh(kind, msg).map(|x| x.s == "f" && x.b.0 == 6 && x.n == 9).map_err(|e| e.what().to_owned()) }
fn rret_small(kind: i32, msg: &[u8]) -> Result<Small, Chunked> { if kind == 0 { Ok(Small { a: 1, b: 2 }) } else { Err(Chunked(lossy(msg))) } }
fn call_small(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_small(kind, msg).map(|x| x.a == 1 && x.b == 2).map_err(|e| e.what().to_owned()) }
fn rret_en(kind: i32, msg: &[u8]) -> Result<En, Chunked> { if kind == 0 { Ok(En::B) } else { Err(Chunked(lossy(msg))) } }
fn call_en(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_en(kind, msg).map(|x| x == En::B).map_err(|e| e.what().to_owned()) }
fn rret_up(kind: i32, msg: &[u8]) -> Result<UniquePtr<CObj>, Chunked> { if kind == 0 { Ok(mkcobj(7)) } else { Err(Chunked(lossy(msg))) } }
fn call_up(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_up(kind, msg).map(|x| x.cval() == 7).map_err(|e| e.what().to_owned()) }
fn rret_upn(kind: i32, msg: &[u8]) -> Result<UniquePtr<CObj>, Chunked> { if kind == 0 { Ok(UniquePtr::null()) } else { Err(Chunked(lossy(msg))) } }
fn call_upn(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_upn(kind, msg).map(|x| x.is_null()).map_err(|e| e.what().to_owned()) }
fn rret_ups(kind: i32, msg: &[u8]) -> Result<UniquePtr<CxxString>, Chunked> { if kind == 0 { Ok(mkstr()) } else { Err(Chunked(lossy(msg))) } }
fn call_ups(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_ups(kind, msg).map(|x| x.as_bytes() == b"cxx").map_err(|e| e.what().to_owned()) }
fn rret_sp(kind: i32, msg: &[u8]) -> Result<SharedPtr<CObj>, Chunked> { if kind == 0 { Ok(mkshared(8)) } else { Err(Chunked(lossy(msg))) } }
fn call_sp(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_sp(kind, msg).map(|x| x.cval() == 8).map_err(|e| e.what().to_owned()) }
fn rret_arr(kind: i32, msg: &[u8]) -> Result<[u16; 3], Chunked> { if kind == 0 { Ok([1, 2, 3]) } else { Err(Chunked(lossy(msg))) } }
fn call_arr(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_arr(kind, msg).map(|x| x == [1, 2, 3]).map_err(|e| e.what().to_owned()) }
fn rret_arrs(kind: i32, msg: &[u8]) -> Result<[String; 2], Chunked> { if kind == 0 { Ok(["a".to_owned(), "b".to_owned()]) } else { Err(Chunked(lossy(msg))) } }
fn call_arrs(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_arrs(kind, msg).map(|x| x == ["a", "b"]).map_err(|e| e.what().to_owned()) }
fn rret_refr(kind: i32, msg: &[u8]) -> Result<&'static RObj, Chunked> { if kind == 0 { Ok(&STATIC_ROBJ) } else { Err(Chunked(lossy(msg))) } }
fn call_refr(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_refr(kind, msg).map(|x| x.0 == 77).map_err(|e| e.what().to_owned()) }
fn rret_refc(kind: i32, msg: &[u8]) -> Result<&'static CObj, Chunked> { if kind == 0 { Ok(unsafe { &*static_cobj() }) } else { Err(Chunked(lossy(msg))) } }
fn call_refc(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_refc(kind, msg).map(|x| x.cval() == 78).map_err(|e| e.what().to_owned()) }
fn rret_ptr(kind: i32, msg: &[u8]) -> Result<*mut CObj, Chunked> { if kind == 0 { Ok(static_cobj()) } else { Err(Chunked(lossy(msg))) } }
fn call_ptr(kind: i32, msg: &[u8]) -> Result<bool, String> { ffi::cret_ptr(kind, msg).map(|x| unsafe { (*x).cval() == 78 }).map_err(|e| e.what().to_owned()) }

const MSGS: &[&[u8]] = &[b"", b"m", b"a message longer than any small string buffer", "\u{e9}\u{1f980}".as_bytes(), b"bad \xff\xc3 utf8 \xf0\x9f", b"nul\0inside", b"\0", b"\n\t\"'\\{}%s"];
fn want(msg: &[u8]) -> String { lossy(msg.split(|b| *b == 0).next().unwrap()) }
#[derive(Clone, Copy, Debug)]
enum ROp { COk, CThrow(i32, usize), ROk, RErr(usize) }
fn rops() -> Vec<ROp> {
    let mut v = vec![ROp::COk, ROp::ROk];
    for m in 0..MSGS.len() { v.push(ROp::RErr(m)); v.push(ROp::CThrow(1, m)); }
    for k in 2..12 { v.push(ROp::CThrow(k, 4)); }
    v
}
fn ret_history(call: fn(i32, &[u8]) -> Result<bool, String>, cd: fn(i32, &[u8]) -> i32, all: &[ROp], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    for &o in t {
        match all[o as usize] {
            ROp::COk => ensure!(call(0, b"") == Ok(true), "Ok value of a C++ function differs: {:?}", call(0, b"")),
            ROp::CThrow(k, m) => { let r = call(k, MSGS[m]); ensure!(r == Err(kind_text(k, &want(MSGS[m]))), "C++ exception {} with message {:?} became {:?}", k, MSGS[m], r); }
            ROp::ROk => { let r = cd(0, b""); ensure!(r == 0, "Ok of a Rust function: C++ step {}", r); }
            ROp::RErr(m) => { let r = cd(1, MSGS[m]); ensure!(r == 0, "Err({:?}) of a Rust function: C++ step {}", MSGS[m], r); }
        }
        key.clear();
        key.push(o as u8);
    }
    Ok(true)
}
/// Kinds of exception whose message is fixed.
fn kind_text(k: i32, m: &str) -> String { match k { 4 => "std::bad_alloc".into(), 5 => "std::exception".into(), 6 => "vector::_M_range_check: __n (which is 3) >= this->size() (which is 0)".into(), 8 => format!("{}!", m), _ => m.into() } }
// ------------------------------------------------ messages byte by byte
const BYTES: &[u8] = b"a\0\x7f\x80\xbf\xc3\xa9\xe2\xed\xf0\x9f\xf4\xff ";
fn bytes_history(t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    let msg: Vec<u8> = t.iter().map(|i| BYTES[*i as usize]).collect();
    let w = want(&msg);
    for k in [1, 2, 3, 7, 9] {
        let e = ffi::cthrow(k, &msg);
        let Err(e) = e else { return Err(format!("exception {} with message {:?} became Ok", k, msg)) };
        ensure!(e.what() == w && e.to_string() == w, "exception {} with message {:?} became {:?}", k, msg, e.what());
        ensure!(format!("{:?}", e) == format!("Exception {{ what: {:?} }}", w));
    }
    let r = ffi::csees(1, &msg);
    ensure!(r == 0, "C++ sees Err({:?}) wrongly at step {}", lossy(&msg), r);
    if let Ok(s) = std::str::from_utf8(&msg) {
        for k in 0..5 {
            let r = ffi::csees_other(k, s);
            ensure!(r == 0, "C++ sees error type {} with text {:?} wrongly at step {}", k, s, r);
        }
    }
    key.extend_from_slice(&msg);
    Ok(true)
}
fn long_history(t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    for &o in t {
        let n = [15, 16, 22, 23, 24, 255, 4096, 100_000][o as usize % 8];
        let msg: Vec<u8> = if o < 8 { vec![b'x'; n] } else if o < 16 { [0xc3, 0xa9].repeat(n) } else { vec![0xff; n] };
        let e = ffi::cthrow(1, &msg);
        ensure!(e.is_err() && e.unwrap_err().what() == lossy(&msg), "message of {} bytes differs", msg.len());
        let r = ffi::csees(1, &msg);
        ensure!(r == 0, "C++ sees an Err with {} bytes wrongly at step {}", msg.len(), r);
        key.clear();
        key.push(o as u8);
    }
    Ok(true)
}
// ------------------------------------------------ chains of frames
const ACTS: [&str; 13] = ["propagate", "map", "swallow", "fail", "fail after", "rethrow", "convert", "copy", "twice", "ok", "twice keep first failure", "in destructor", "on a thread"];
thread_local! { static LOG: Cell<i32> = const { Cell::new(0) }; }
static mut SCRIPT: [u8; 16] = [0; 16];
static mut LEN: usize = 0;
static mut RGUARDS: i32 = 0;
static mut SIDE: i32 = 0;
fn action(n: usize) -> u8 { unsafe { if n < LEN { SCRIPT[n] } else { 9 } } }
fn rlog(n: i32) { unsafe { SIDE = SIDE.wrapping_mul(31).wrapping_add(n + 1) } }
struct RGuard;
impl RGuard { fn new() -> Self { unsafe { RGUARDS += 1 } RGuard } }
impl Drop for RGuard { fn drop(&mut self) { unsafe { RGUARDS -= 1 } } }
fn rlevel(n: usize) -> Result<i32, Box<dyn std::error::Error>> {
    let _g = RGuard::new();
    rlog(n as i32);
    let next = || ffi::clevel(n + 1);
    Ok(match action(n) {
        0 => next()? + 1,
        1 => next().map_err(|e| format!("r{}:{}", n, e))? + 1,
        2 => next().unwrap_or(-(n as i32)),
        3 => return Err(format!("r{}", n).into()),
        4 => { next()?; return Err(Box::new(std::io::Error::new(std::io::ErrorKind::Other, format!("r{}", n)))); }
        5 => match next() { Ok(x) => x, Err(e) => return Err(Box::new(e)) },
        6 => next().map_err(|e| e.what().to_owned())?,
        7 => { let r = next(); let e = r.as_ref().err().map(|e| e.to_string()); drop(r); match e { Some(e) => return Err(e.into()), None => 5 } }
        8 => { let _ = next(); next()? }
        9 => 100 + n as i32,
        10 => { let r = next(); let q = next(); r? + q? }
        11 => { struct D(usize); impl Drop for D { fn drop(&mut self) { let _ = ffi::clevel(self.0 + 1); } } { let _d = D(n); } 7 }
        _ => std::thread::spawn(move || ffi::clevel(n + 1)).join().unwrap()?,
    })
}
/// What a frame should do.
fn reference(script: &[u8], n: usize, rust: bool, side: &mut i32) -> Result<i32, String> {
    *side = side.wrapping_mul(31).wrapping_add(n as i32 + 1);
    let c = if rust { 'r' } else { 'c' };
    let mut next = |side: &mut i32| reference(script, n + 1, !rust, side);
    Ok(match script.get(n).copied().unwrap_or(9) {
        0 => next(side)? + 1,
        1 => next(side).map_err(|e| format!("{}{}:{}", c, n, e))? + 1,
        2 => next(side).unwrap_or(-(n as i32)),
        3 => return Err(format!("{}{}", c, n)),
        4 => { next(side)?; return Err(format!("{}{}", c, n)); }
        5 | 6 => next(side)?,
        7 => { next(side)?; 5 }
        8 => { let _ = next(side); next(side)? }
        9 => 100 + n as i32,
        10 => { let r = next(side); let q = next(side); r? + q? }
        11 => { let _ = next(side); 7 }
        _ => next(side)?,
    })
}
fn chain(rust: bool, acts: &[u8], t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    let script: Vec<u8> = t.iter().map(|o| acts[*o as usize]).collect();
    unsafe { SIDE = 0; LEN = script.len(); (&mut *(&raw mut SCRIPT))[..script.len()].copy_from_slice(&script); }
    let mut side = 0;
    let want = reference(&script, 0, rust, &mut side);
    let got = if rust {
        let mut out = String::new();
        let v = ffi::croot(&mut out);
        if v == i32::MIN { Err(out) } else { Ok(v) }
    } else {
        ffi::clevel(0).map_err(|e| e.what().to_owned())
    };
    ensure!(got == want, "got {:?}, expected {:?}", got, want);
    unsafe { ensure!(SIDE == side, "frames ran in the wrong order or number"); ensure!(RGUARDS == 0, "{} Rust guards not dropped", RGUARDS); }
    ensure!(ffi::guards() == 0, "{} C++ guards not destroyed", ffi::guards());
    key.extend_from_slice(&script);
    Ok(true)
}
pub fn systems() -> Vec<System> {
    let mut v = vec![];
    let names = |a: &[u8]| a.iter().map(|i| ACTS[*i as usize].to_owned()).collect::<Vec<_>>();
    v.push(rust_system("err-bytes", BYTES.iter().map(|b| format!("{:02x}", b)).collect(), bytes_history));
    v.push(rust_system("err-long", (0..24).map(|b| format!("length class {}", b)).collect(), long_history));
    for rust in [true, false] {
        let w = if rust { "err-chain-into-rust" } else { "err-chain-into-cxx" };
        let a: Vec<u8> = (0..11).collect();
        v.push(rust_system(w, names(&a), { let a = a.clone(); move |t, k| chain(rust, &a, t, k) }));
        let a: Vec<u8> = vec![0, 1, 2, 3, 4, 11, 12];
        v.push(rust_system(&format!("{}-thread", w), names(&a), { let a = a.clone(); move |t, k| chain(rust, &a, t, k) }));
    }
    v.push(rust_system("err-ret-unit", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_unit, ffi::cdrive_unit, &all, t, k) }));
    v.push(rust_system("err-ret-u8", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_u8, ffi::cdrive_u8, &all, t, k) }));
    v.push(rust_system("err-ret-i128less", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_i128less, ffi::cdrive_i128less, &all, t, k) }));
    v.push(rust_system("err-ret-f64", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_f64, ffi::cdrive_f64, &all, t, k) }));
    v.push(rust_system("err-ret-boolean", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_boolean, ffi::cdrive_boolean, &all, t, k) }));
    v.push(rust_system("err-ret-string", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_string, ffi::cdrive_string, &all, t, k) }));
    v.push(rust_system("err-ret-str", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_str, ffi::cdrive_str, &all, t, k) }));
    v.push(rust_system("err-ret-slice", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_slice, ffi::cdrive_slice, &all, t, k) }));
    v.push(rust_system("err-ret-boxed", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_boxed, ffi::cdrive_boxed, &all, t, k) }));
    v.push(rust_system("err-ret-vecn", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_vecn, ffi::cdrive_vecn, &all, t, k) }));
    v.push(rust_system("err-ret-vecs", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_vecs, ffi::cdrive_vecs, &all, t, k) }));
    v.push(rust_system("err-ret-sh", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_sh, ffi::cdrive_sh, &all, t, k) }));
    v.push(rust_system("err-ret-small", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_small, ffi::cdrive_small, &all, t, k) }));
    v.push(rust_system("err-ret-en", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_en, ffi::cdrive_en, &all, t, k) }));
    v.push(rust_system("err-ret-up", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_up, ffi::cdrive_up, &all, t, k) }));
    v.push(rust_system("err-ret-upn", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_upn, ffi::cdrive_upn, &all, t, k) }));
    v.push(rust_system("err-ret-ups", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_ups, ffi::cdrive_ups, &all, t, k) }));
    v.push(rust_system("err-ret-sp", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_sp, ffi::cdrive_sp, &all, t, k) }));
    v.push(rust_system("err-ret-arr", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_arr, ffi::cdrive_arr, &all, t, k) }));
    v.push(rust_system("err-ret-arrs", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_arrs, ffi::cdrive_arrs, &all, t, k) }));
    v.push(rust_system("err-ret-refr", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_refr, ffi::cdrive_refr, &all, t, k) }));
    v.push(rust_system("err-ret-refc", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_refc, ffi::cdrive_refc, &all, t, k) }));
    v.push(rust_system("err-ret-ptr", rops().iter().map(|o| format!("{:?}", o)).collect(), { let all = rops(); move |t, k| ret_history(call_ptr, ffi::cdrive_ptr, &all, t, k) }));
    v
}
/// Exceptions nobody is to catch: each in a child that must end by std::terminate.
pub fn wild(k: i32) {
    if k < 5 { ffi::wild(k) } else { let _ = ffi::wild_result(k - 5); }
}
