//! Generated by gen_c11.py.
//! C11: a custom trycatch.
use crate::engine::{rust_system, System};
use crate::ensure;
#[cxx::bridge(namespace = "c11b")]
mod ffi {
    unsafe extern "C++" {
        include!("rt/cc/c11b.hpp");
        fn custom(kind: i32, msg: &[u8]) -> Result<()>;
        fn custom_value(kind: i32, msg: &[u8]) -> Result<String>;
        fn custom_ptr(kind: i32, msg: &[u8]) -> Result<UniquePtr<CxxString>>;
        fn calls() -> i32;
    }
}
const BYTES: &[u8] = b"a\0\xc3\xa9\xff\xf0\x9f";
fn history(t: &[u16], key: &mut Vec<u8>) -> Result<bool, String> {
    let msg: Vec<u8> = t.iter().map(|i| BYTES[*i as usize]).collect();
    let full = String::from_utf8_lossy(&msg).into_owned();
    let cut = String::from_utf8_lossy(msg.split(|b| *b == 0).next().unwrap()).into_owned();
    // kind 0 does not throw; 1: std::exception; 2: a std::string; 3: an int; 4: char const *; 5: a class of its own; 6: nested try; 7: twice
    for (k, w) in [(0, None), (1, Some(format!("std:{}", cut))), (2, Some(full.clone())), (3, Some("int".to_owned())), (4, Some(cut.clone())), (5, Some(full.clone())), (6, Some(cut.clone())), (0, None)] {
        let n = ffi::calls();
        let r = ffi::custom(k, &msg).map_err(|e| e.what().to_owned());
        ensure!(r.as_ref().err() == w.as_ref(), "kind {} with {:?} became {:?}, expected {:?}", k, msg, r, w);
        ensure!(ffi::calls() == n + 1, "the custom trycatch was not used");
        let r = ffi::custom_value(k, &msg).map_err(|e| e.what().to_owned());
        ensure!(r == match &w { None => Ok("value".to_owned()), Some(e) => Err(e.clone()) }, "kind {} with {:?} became {:?}, expected {:?}", k, msg, r, w);
        let r = ffi::custom_ptr(k, &msg).map_err(|e| e.what().to_owned());
        match (&w, r) {
            (None, Ok(p)) => ensure!(p.as_bytes() == &msg[..]),
            (Some(e), Err(f)) => ensure!(*e == f),
            _ => return Err(format!("kind {} with {:?}: wrong outcome", k, msg)),
        }
    }
    key.extend_from_slice(&msg);
    Ok(true)
}
pub fn systems() -> Vec<System> { vec![rust_system("err-custom", BYTES.iter().map(|b| format!("{:02x}", b)).collect(), history)] }
