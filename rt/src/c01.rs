#[cxx::bridge(namespace = "c01")]
mod ffi {
    struct Holder {
        s: String,
        n: u32,
    }
    extern "Rust" {
        unsafe fn rs_is(s: &String, p: *const u8, n: usize) -> bool;
        unsafe fn rs_str_is(s: &str, p: *const u8, n: usize) -> bool;
        fn rs_push(s: &mut String, t: &str);
        fn rs_take(s: String) -> usize;
        fn rs_echo(s: String) -> String;
        fn rs_make(t: &str) -> String;
        fn rs_clear(s: &mut String);
        fn rs_set(s: &mut String, t: &CxxString);
        fn rs_holder(h: Holder) -> Holder;
        fn rs_opt_make(ok: bool) -> Result<String>;
    }
}
unsafe fn rs_is(s: &String, p: *const u8, n: usize) -> bool {
    let b = s.as_bytes();
    b.len() == n && s.capacity() >= n && (0..n).all(|i| unsafe { *p.add(i) } == b[i]) && std::str::from_utf8(b).is_ok()
}
unsafe fn rs_str_is(s: &str, p: *const u8, n: usize) -> bool {
    let b = s.as_bytes();
    b.len() == n && (0..n).all(|i| unsafe { *p.add(i) } == b[i]) && std::str::from_utf8(b).is_ok()
}
fn rs_push(s: &mut String, t: &str) {
    s.push_str(t)
}
fn rs_take(s: String) -> usize {
    s.len()
}
fn rs_echo(s: String) -> String {
    s
}
fn rs_make(t: &str) -> String {
    t.to_owned()
}
fn rs_clear(s: &mut String) {
    s.clear()
}
fn rs_set(s: &mut String, t: &cxx::CxxString) {
    *s = t.to_str().unwrap().to_owned()
}
fn rs_holder(mut h: ffi::Holder) -> ffi::Holder {
    h.n += 1;
    h
}
fn rs_opt_make(ok: bool) -> Result<String, std::fmt::Error> {
    if ok { Ok("ok".to_owned()) } else { Err(std::fmt::Error) }
}
