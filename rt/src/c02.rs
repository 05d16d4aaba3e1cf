//! Exhaustive enumeration of byte / UTF-16 sequences over boundary alphabets.
use cxx::let_cxx_string;
use std::fmt::Write;
use std::time::Instant;

#[cxx::bridge(namespace = "c02")]
mod ffi {
    extern "Rust" {
        unsafe fn rs_view(s: &str, p: *const u8, n: usize) -> bool;
        unsafe fn rs_string_view(s: &String, p: *const u8, n: usize) -> bool;
        unsafe fn rs_cmp(a: &str, b: &str) -> i8;
    }
    unsafe extern "C++" {
        include!("rt/cc/c02.hpp");
        fn check8(b: &[u8], valid: bool, lossy: &str) -> u32;
        fn check16(b: &[u16], valid: bool, exact: &str, lossy: &str) -> u32;
        fn check_cmp(a: &str, b: &str, ord: i8) -> u32;
        fn check_view(s: &CxxString, b: &[u8]) -> bool;
        fn check_misc() -> u32;
    }
}
unsafe fn rs_view(s: &str, p: *const u8, n: usize) -> bool {
    std::str::from_utf8(s.as_bytes()).is_ok() && s.len() == n && (n == 0 || unsafe { std::slice::from_raw_parts(p, n) } == s.as_bytes())
}
unsafe fn rs_string_view(s: &String, p: *const u8, n: usize) -> bool {
    unsafe { rs_view(s, p, n) }
}
unsafe fn rs_cmp(a: &str, b: &str) -> i8 {
    a.cmp(b) as i8
}

const CLASSES: [u8; 27] = [
    0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8,
    0xFF,
];
const UNITS: [u16; 13] = [0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF];

struct R {
    n: u64,
    valid: u64,
    steps: u64,
    bad: Option<String>,
    samples: Vec<String>,
}

fn debug_ref(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for c in b.utf8_chunks() {
        let d = format!("{:?}", c.valid());
        o.push_str(&d[1..d.len() - 1]);
        for x in c.invalid() {
            write!(o, "\\x{:02x}", x).unwrap();
        }
    }
    o.push('"');
    o
}

/// Reference decoder, written from the Unicode well-formedness table
/// (Table 3-7), independent of the library's own implementation.
fn wellformed(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let g = |k: usize| b.get(i + k).copied().unwrap_or(0);
        let c = |x: u8| (0x80..=0xBF).contains(&x);
        i += match b[i] {
            0..=0x7F => 1,
            0xC2..=0xDF if c(g(1)) => 2,
            0xE0 if (0xA0..=0xBF).contains(&g(1)) && c(g(2)) => 3,
            0xE1..=0xEC | 0xEE | 0xEF if c(g(1)) && c(g(2)) => 3,
            0xED if (0x80..=0x9F).contains(&g(1)) && c(g(2)) => 3,
            0xF0 if (0x90..=0xBF).contains(&g(1)) && c(g(2)) && c(g(3)) => 4,
            0xF1..=0xF3 if c(g(1)) && c(g(2)) && c(g(3)) => 4,
            0xF4 if (0x80..=0x8F).contains(&g(1)) && c(g(2)) && c(g(3)) => 4,
            _ => return false,
        };
    }
    true
}

fn one8(b: &[u8], r: &mut R) {
    r.n += 1;
    let valid = wellformed(b);
    r.valid += valid as u64;
    let lossy = String::from_utf8_lossy(b);
    let m = ffi::check8(b, valid, &lossy);
    if m != 0 && r.bad.is_none() {
        r.bad = Some(format!("bytes {:02x?} valid={valid}: C++ constructors disagree, mask {m:#x}", b));
    }
    // Rust-side views of the same bytes held in a std::string
    let_cxx_string!(s = b);
    let mut fail = |what: &str| {
        if r.bad.is_none() {
            r.bad = Some(format!("bytes {:02x?} valid={valid}: CxxString {what}", b));
        }
    };
    if s.to_str().is_ok() != valid || (valid && s.to_str().unwrap().as_bytes() != b) {
        fail("to_str");
    }
    let l = s.to_string_lossy();
    if l != lossy || matches!(l, std::borrow::Cow::Borrowed(_)) != valid {
        fail("to_string_lossy");
    }
    if format!("{}", &*s) != lossy {
        fail("Display");
    }
    if format!("{:?}", &*s) != debug_ref(b) {
        fail("Debug");
    }
    if s.as_bytes() != b || !ffi::check_view(&s, b) {
        fail("as_bytes");
    }
    if r.n % 20011 == 3 && r.samples.len() < 4 {
        r.samples.push(format!("bytes {:02x?} valid={valid} lossy={:?}", b, lossy));
    }
    r.steps += 16;
}
fn one16(b: &[u16], r: &mut R) {
    r.n += 1;
    let mut ok = true;
    let mut i = 0;
    while i < b.len() {
        if (0xD800..0xDC00).contains(&b[i]) && i + 1 < b.len() && (0xDC00..0xE000).contains(&b[i + 1]) {
            i += 2;
        } else if (0xD800..0xE000).contains(&b[i]) {
            ok = false;
            break;
        } else {
            i += 1;
        }
    }
    r.valid += ok as u64;
    let lossy = String::from_utf16_lossy(b);
    let exact = if ok { lossy.clone() } else { String::new() };
    let m = ffi::check16(b, ok, &exact, &lossy);
    if m != 0 && r.bad.is_none() {
        r.bad = Some(format!("utf16 {:04x?} valid={ok}: C++ constructors disagree, mask {m:#x}", b));
    }
    if r.n % 20011 == 3 && r.samples.len() < 4 {
        r.samples.push(format!("utf16 {:04x?} valid={ok} lossy={:?}", b, lossy));
    }
    r.steps += 5;
}

fn enumerate<T: Copy>(al: &[T], len: usize, shard: usize, n: usize, mut f: impl FnMut(&[T])) {
    for l in 0..=len {
        let mut idx = vec![0usize; l];
        let mut cur: Vec<T> = vec![al[0]; l];
        let mut k = 0usize;
        'o: loop {
            if k % n == shard {
                for i in 0..l {
                    cur[i] = al[idx[i]];
                }
                f(&cur);
            }
            k += 1;
            let mut p = l;
            loop {
                if p == 0 {
                    break 'o;
                }
                p -= 1;
                idx[p] += 1;
                if idx[p] < al.len() {
                    break;
                }
                idx[p] = 0;
            }
        }
    }
}

pub fn main() {
    // mode len shard nshards
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    let mut r = R { n: 0, valid: 0, steps: 0, bad: None, samples: vec![] };
    match a[1].as_str() {
        "utf8" => enumerate(&CLASSES, num(2), num(3), num(4), |b| one8(b, &mut r)),
        // every pair / triple of arbitrary bytes
        "bytes" => {
            let all: Vec<u8> = (0..=255).collect();
            enumerate(&all, num(2), num(3), num(4), |b| one8(b, &mut r))
        }
        "utf16" => enumerate(&UNITS, num(2), num(3), num(4), |b| one16(b, &mut r)),
        "units" => {
            let all: Vec<u16> = (0..=0xFFFF).collect();
            enumerate(&all, 1, num(3), num(4), |b| one16(b, &mut r));
            // every unit after / before a high and a low surrogate
            for u in (0..=0xFFFFu16).filter(|u| *u as usize % num(4) == num(3)) {
                for s in [0xD800, 0xDBFF, 0xDC00, 0xDFFF] {
                    one16(&[s, u], &mut r);
                    one16(&[u, s], &mut r);
                }
            }
        }
        "scalars" => {
            let step = num(2) as u32;
            for c in (0..=0x10FFFFu32).filter(|c| (*c / step) as usize % num(4) == num(3) && (step == 1 || c % step < 2 || c % step == step - 1)) {
                if let Some(c) = char::from_u32(c) {
                    one8(c.encode_utf8(&mut [0; 4]).as_bytes(), &mut r);
                    one16(c.encode_utf16(&mut [0; 2]), &mut r);
                }
            }
        }
        // long inputs: every position of one ill-formed insertion in a long text
        "long" => {
            for total in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023] {
                for pos in 0..=total {
                    if pos % num(4) != num(3) {
                        continue;
                    }
                    for ins in [&b""[..], b"\x80", b"\xc3\xa9", b"\xe2\x82", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xff", b"\0"] {
                        let mut v = vec![b'q'; total];
                        v.splice(pos..pos, ins.iter().copied());
                        one8(&v, &mut r);
                    }
                    for ins in [&[][..], &[0xD800u16], &[0xD83D, 0xDE00], &[0xDC00], &[0]] {
                        let mut v = vec![0x3b1u16; total];
                        v.splice(pos..pos, ins.iter().copied());
                        one16(&v, &mut r);
                    }
                }
            }
        }
        "cmp" => {
            let chars = ["\0", "A", "\x7f", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}"];
            let mut v: Vec<String> = vec![String::new()];
            let mut from = 0;
            for _ in 0..num(2) {
                let end = v.len();
                for i in from..end {
                    for c in chars {
                        let s = v[i].clone() + c;
                        v.push(s);
                    }
                }
                from = end;
            }
            for (i, x) in v.iter().enumerate() {
                if i % num(4) != num(3) {
                    continue;
                }
                for y in &v {
                    r.n += 1;
                    r.steps += 18;
                    let o = x.as_bytes().cmp(y.as_bytes()) as i8;
                    let m = ffi::check_cmp(x, y, o);
                    if m != 0 && r.bad.is_none() {
                        r.bad = Some(format!("{x:?} vs {y:?}: expected order {o}, operator mask {m:#x} disagrees"));
                    }
                    if r.n % 50021 == 3 && r.samples.len() < 3 {
                        r.samples.push(format!("compare {x:?} with {y:?} -> {o}"));
                    }
                }
            }
            r.valid = r.n;
            let m = ffi::check_misc();
            if m != 0 && r.bad.is_none() {
                r.bad = Some(format!("rust::Str basics: check {m} failed"));
            }
        }
        _ => panic!(),
    }
    let esc = |s: &String| format!("{:?}", s.replace('\\', "/").chars().map(|c| if c.is_ascii() && !c.is_control() { c } else { '?' }).collect::<String>());
    println!(
        "{{\"n\":{},\"valid\":{},\"steps\":{},\"bad\":{},\"samples\":[{}]}}",
        r.n,
        r.valid,
        r.steps,
        r.bad.as_ref().map(|b| esc(b)).unwrap_or("null".into()),
        r.samples.iter().map(esc).collect::<Vec<_>>().join(",")
    );
}
