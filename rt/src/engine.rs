//! Explicit-state / exhaustive-sequence explorer.  A `System` replays a whole
//! operation sequence against the real implementation and a reference model.
//!  * `bfs`: breadth-first over model+observable states, deduplicated by key
//!  * `dfs`: every operation sequence up to a depth, no deduplication
use std::alloc::{GlobalAlloc, Layout, System as SysAlloc};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub static RUST_LIVE: AtomicI64 = AtomicI64::new(0);

/// Counts live Rust allocations.
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        RUST_LIVE.fetch_add(1, Relaxed);
        unsafe { SysAlloc.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        RUST_LIVE.fetch_sub(1, Relaxed);
        unsafe { SysAlloc.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // always move: stale pointers into a grown buffer become visible
        unsafe {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = SysAlloc.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                SysAlloc.dealloc(p, l);
            }
            q
        }
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

#[unsafe(no_mangle)]
pub extern "C" fn vk_rust_live() -> i64 {
    RUST_LIVE.load(Relaxed)
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Out {
    Ok,
    Disabled,
    Violation,
}

pub struct System {
    pub name: String,
    pub nops: usize,
    pub opname: Box<dyn Fn(usize) -> String>,
    /// Replays a sequence; fills key (state after) or message.
    pub run: Box<dyn Fn(&[u16], &mut Vec<u8>, &mut String) -> Out>,
}

#[derive(Default)]
pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub runs: u64,
    pub max_depth: u64,
    pub exhausted: bool,
    pub samples: Vec<String>,
    pub violation: Option<(Vec<u16>, String)>,
}

unsafe extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
}

pub struct Tracer {
    p: *mut u16,
}
impl Tracer {
    pub fn new(path: &str) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Tracer { p: p as *mut u16 }
    }
    fn put(&self, t: &[u16]) {
        unsafe {
            *self.p = t.len() as u16;
            for (i, x) in t.iter().enumerate() {
                *self.p.add(1 + i) = *x;
            }
        }
    }
}

pub fn show(s: &System, t: &[u16]) -> String {
    let mut o = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            o.push_str("; ");
        }
        write!(o, "{}", (s.opname)(*x as usize)).unwrap();
    }
    o
}

pub fn bfs(s: &System, tr: &Tracer, max_states: usize, max_depth: usize, limit: Duration) -> Report {
    let start = Instant::now();
    let mut r = Report { exhausted: true, ..Default::default() };
    let mut seen: HashMap<Vec<u8>, u32> = HashMap::new();
    // (parent, op, depth)
    let mut nodes: Vec<(u32, u16, u16)> = Vec::new();
    let (mut key, mut msg) = (Vec::new(), String::new());
    tr.put(&[]);
    if (s.run)(&[], &mut key, &mut msg) == Out::Violation {
        r.violation = Some((vec![], msg));
        return r;
    }
    seen.insert(key.clone(), 0);
    nodes.push((0, 0, 0));
    let mut i = 0;
    let mut path: Vec<u16> = Vec::new();
    while i < nodes.len() {
        if start.elapsed() > limit {
            r.exhausted = false;
            break;
        }
        path.clear();
        let mut n = i;
        while n != 0 {
            path.push(nodes[n].1);
            n = nodes[n].0 as usize;
        }
        path.reverse();
        let d = nodes[i].2;
        if d as usize >= max_depth {
            r.exhausted = false;
            i += 1;
            continue;
        }
        unsafe { alarm(120) };
        for op in 0..s.nops {
            path.push(op as u16);
            tr.put(&path);
            key.clear();
            msg.clear();
            let o = (s.run)(&path, &mut key, &mut msg);
            r.runs += 1;
            match o {
                Out::Violation => {
                    r.violation = Some((path.clone(), msg.clone()));
                    r.states = nodes.len() as u64;
                    return r;
                }
                Out::Disabled => {}
                Out::Ok => {
                    r.transitions += 1;
                    if !seen.contains_key(&key) {
                        if nodes.len() < max_states {
                            seen.insert(key.clone(), nodes.len() as u32);
                            nodes.push((i as u32, op as u16, d + 1));
                            r.max_depth = r.max_depth.max(d as u64 + 1);
                        } else {
                            r.exhausted = false;
                        }
                    }
                    if r.runs % 4999 == 7 && r.samples.len() < 3 {
                        r.samples.push(show(s, &path));
                    }
                }
            }
            path.pop();
        }
        i += 1;
    }
    r.states = nodes.len() as u64;
    if r.samples.is_empty() {
        r.samples.push(show(s, &path));
    }
    r
}

pub fn dfs(s: &System, tr: &Tracer, depth: usize, shard: usize, nshards: usize, limit: Duration) -> Report {
    let start = Instant::now();
    let mut r = Report { exhausted: true, max_depth: depth as u64, ..Default::default() };
    let mut keys: std::collections::HashSet<Vec<u8>> = Default::default();
    let (mut key, mut msg) = (Vec::new(), String::new());
    let mut path: Vec<u16> = vec![0];
    let mut top = 0usize; // counts first-two-op prefixes for sharding
    unsafe { alarm(120) };
    loop {
        // path's last op is to be tried
        if (*path.last().unwrap() as usize) >= s.nops {
            path.pop();
            match path.last_mut() {
                None => break,
                Some(l) => *l += 1,
            }
            continue;
        }
        if path.len() == 2 || depth == 1 {
            top += 1;
            if top % nshards != shard {
                *path.last_mut().unwrap() += 1;
                continue;
            }
        }
        tr.put(&path);
        key.clear();
        msg.clear();
        let o = (s.run)(&path, &mut key, &mut msg);
        r.runs += 1;
        if r.runs % 1024 == 0 {
            unsafe { alarm(120) };
            if start.elapsed() > limit {
                r.exhausted = false;
                break;
            }
        }
        match o {
            Out::Violation => {
                r.violation = Some((path.clone(), msg.clone()));
                break;
            }
            Out::Ok => {
                r.transitions += 1;
                if keys.len() < 1_000_000 {
                    if !keys.contains(&key) {
                        keys.insert(key.clone());
                    }
                }
                if r.runs % 9973 == 11 && r.samples.len() < 3 {
                    r.samples.push(show(s, &path));
                }
                if path.len() < depth {
                    path.push(0);
                    continue;
                }
            }
            Out::Disabled => {}
        }
        *path.last_mut().unwrap() += 1;
    }
    r.states = keys.len() as u64;
    r
}

/// A system written in Rust: `f` replays the history, checks the final state and
/// writes its key.  Ok(false): the history is not enabled.  Allocations of both
/// languages must balance when `f` returns.
pub fn rust_system(
    name: &str,
    ops: Vec<String>,
    f: impl Fn(&[u16], &mut Vec<u8>) -> Result<bool, String> + 'static,
) -> System {
    unsafe extern "C" {
        fn vk_cxx_live() -> i64;
    }
    System {
        name: name.to_owned(),
        nops: ops.len(),
        opname: Box::new(move |i| ops[i].clone()),
        run: Box::new(move |t, key, msg| {
            key.reserve(8192);
            let mut again = false;
            loop {
                key.clear();
                let (c0, r0) = unsafe { (vk_cxx_live(), vk_rust_live()) };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(t, key)));
                let (c1, r1) = unsafe { (vk_cxx_live(), vk_rust_live()) };
                match r {
                    Ok(Ok(b)) => {
                        if (c0, r0) == (c1, r1) {
                            return if b { Out::Ok } else { Out::Disabled };
                        }
                        if again {
                            write!(msg, "allocation imbalance at end of history: C++ blocks {:+}, Rust blocks {:+}", c1 - c0, r1 - r0).unwrap();
                            return Out::Violation;
                        }
                        again = true; // lazily initialised statics show up once
                    }
                    Ok(Err(e)) => {
                        msg.push_str(&e);
                        return Out::Violation;
                    }
                    Err(p) => {
                        let p: Box<dyn std::any::Any> = p;
                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                        write!(msg, "unexpected panic: {}", m.unwrap_or_default()).unwrap();
                        return Out::Violation;
                    }
                }
            }
        }),
    }
}

/// Silences panic messages of expected panics.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
#[macro_export]
macro_rules! ensure {
    ($c:expr) => {
        if !$c {
            return Err(format!("check failed: {} at {}:{}", stringify!($c), file!(), line!()));
        }
    };
    ($c:expr, $($t:tt)+) => {
        if !$c {
            return Err(format!("check failed: {} at {}:{}: {}", stringify!($c), file!(), line!(), format!($($t)+)));
        }
    };
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(systems: Vec<System>) {
    if std::env::var_os("VK_LOUD").is_none() {
        quiet_panics();
    }
    let a: Vec<String> = std::env::args().collect();
    let find = |n: &str| systems.iter().find(|s| s.name == n).expect("no such system");
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in &systems {
                println!("{} {}", s.name, s.nops);
            }
        }
        // names sys op op op...
        Some("names") => {
            let s = find(&a[2]);
            let t: Vec<u16> = a[3..].iter().map(|x| x.parse().unwrap()).collect();
            println!("{}", show(s, &t));
        }
        Some("replay") => {
            let s = find(&a[2]);
            let t: Vec<u16> = a[3..].iter().map(|x| x.parse().unwrap()).collect();
            println!("{}", show(s, &t));
            let (mut k, mut m) = (vec![], String::new());
            let o = (s.run)(&t, &mut k, &mut m);
            println!("{:?} {} key={}", o, m, String::from_utf8_lossy(&k));
            std::process::exit(if o == Out::Violation { 1 } else { 0 });
        }
        // explore sys out trace secs (bfs max_states max_depth | dfs depth shard nshards)
        Some("explore") => {
            let s = find(&a[2]);
            let tr = Tracer::new(&a[4]);
            let lim = Duration::from_secs_f64(a[5].parse().unwrap());
            let n = |i: usize| a[i].parse::<usize>().unwrap();
            let r = match a[6].as_str() {
                "bfs" => bfs(s, &tr, n(7), n(8), lim),
                _ => dfs(s, &tr, n(7), n(8), n(9), lim),
            };
            let mut o = String::new();
            write!(o, "{{\"states\":{},\"transitions\":{},\"runs\":{},\"max_depth\":{},\"exhausted\":{},\"samples\":[{}]", r.states, r.transitions, r.runs, r.max_depth, r.exhausted,
                r.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")).unwrap();
            if let Some((t, m)) = r.violation {
                write!(o, ",\"violation\":{{\"ops\":{:?},\"trace\":{},\"msg\":{}}}", t, esc(&show(s, &t)), esc(&m)).unwrap();
            }
            o.push('}');
            std::fs::write(&a[3], o).unwrap();
        }
        _ => panic!("usage"),
    }
}

/// C++-side systems, exported through a small C interface.
pub mod cc {
    use super::*;
    unsafe extern "C" {
        fn vk_count() -> usize;
        fn vk_name(sys: usize, op: usize, buf: *mut u8, cap: usize) -> usize; // op == usize::MAX: system
        fn vk_nops(sys: usize) -> usize;
        fn vk_run(sys: usize, ops: *const u16, n: usize, key: *mut u8, keycap: usize, keylen: *mut usize, err: *mut u8, errcap: usize) -> i32;
    }
    fn name(s: usize, op: usize) -> String {
        let mut b = vec![0u8; 1024];
        let n = unsafe { vk_name(s, op, b.as_mut_ptr(), 1024) };
        String::from_utf8_lossy(&b[..n]).into_owned()
    }
    pub fn systems() -> Vec<System> {
        (0..unsafe { vk_count() })
            .map(|i| System {
                name: name(i, usize::MAX),
                nops: unsafe { vk_nops(i) },
                opname: Box::new(move |o| name(i, o)),
                run: Box::new(move |t, key, msg| {
                    key.resize(4096, 0);
                    let mut eb = [0u8; 512];
                    let mut kl = 0;
                    let r = unsafe { vk_run(i, t.as_ptr(), t.len(), key.as_mut_ptr(), 4096, &mut kl, eb.as_mut_ptr(), 512) };
                    key.truncate(kl);
                    match r {
                        0 => Out::Ok,
                        1 => Out::Disabled,
                        _ => {
                            let n = eb.iter().position(|b| *b == 0).unwrap_or(512);
                            msg.push_str(&String::from_utf8_lossy(&eb[..n]));
                            Out::Violation
                        }
                    }
                }),
            })
            .collect()
    }
}
