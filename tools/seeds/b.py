import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed

seed("c09-callback-return", "C09", "a function pointer argument that returns a type passed indirectly (String, Vec, struct)",
     "C++ passes the callback pointer and the return slot to the Rust trampoline in swapped order",
     [("gen/src/write.rs", '''    if indirect_return {
        if needs_comma {
            write!(out, ", ");
        }
        write!(out, "&return$.value");
        needs_comma = true;
    }
    if indirect_call {
        if needs_comma {
            write!(out, ", ");
        }
        write!(out, "extern$");
    }
''', '''    if indirect_call {
        if needs_comma {
            write!(out, ", ");
        }
        write!(out, "extern$");
        needs_comma = true;
    }
    if indirect_return {
        if needs_comma {
            write!(out, ", ");
        }
        write!(out, "&return$.value");
    }
'''), ("gen/src/write.rs", '''    if indirect_return(sig, out.types) {
        if needs_comma {
            write!(out, ", ");
        }
        match sig.ret.as_ref().unwrap() {
            Type::Ref(ret) => {
                write_type_space(out, &ret.inner);
                if !ret.mutable {
                    write!(out, "const ");
                }
                write!(out, "*");
            }
            ret => write_type_space(out, ret),
        }
        write!(out, "*return$");
        needs_comma = true;
    }
    if indirect_call {
        if needs_comma {
            write!(out, ", ");
        }
        write!(out, "void *");
    }
    writeln!(out, ") noexcept;");
''', '''    if indirect_call {
        if needs_comma {
            write!(out, ", ");
        }
        write!(out, "void *");
        needs_comma = true;
    }
    if indirect_return(sig, out.types) {
        if needs_comma {
            write!(out, ", ");
        }
        match sig.ret.as_ref().unwrap() {
            Type::Ref(ret) => {
                write_type_space(out, &ret.inner);
                if !ret.mutable {
                    write!(out, "const ");
                }
                write!(out, "*");
            }
            ret => write_type_space(out, ret),
        }
        write!(out, "*return$");
    }
    writeln!(out, ") noexcept;");
''')],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi { unsafe extern "C++" { include!("demo.h"); fn run(f: fn(i32) -> String) -> usize; } }
fn cb(n: i32) -> String { "x".repeat(n as usize) }
fn main() { assert_eq!(ffi::run(cb), 30); }''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
inline std::size_t run(rust::Fn<rust::String(std::int32_t)> f) { return f(30).size(); }'''})

seed("c10-exception-leak", "C10", "a C++ exception whose message is not valid UTF-8 (or simply any lossy conversion), many times",
     "the memory of the lossily decoded message is leaked each time",
     [("src/symbols/exception.rs", '''    let string = String::from_utf8_lossy(slice);
    let len = string.len();
    let raw_str = Box::into_raw(string.into_owned().into_boxed_str());
''', '''    let string = String::from_utf8_lossy(slice);
    let len = string.len();
    let raw_str = match string {
        alloc::borrow::Cow::Borrowed(valid) => Box::into_raw(Box::<str>::from(valid)),
        alloc::borrow::Cow::Owned(lossy) => Box::into_raw(Box::<str>::from(&*lossy.leak())),
    };
''')],
     {"main.rs": r'''
use std::alloc::*; use std::sync::atomic::*;
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A; unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
#[cxx::bridge]
mod ffi { unsafe extern "C++" { include!("demo.h"); fn run() -> Result<()>; } }
fn main() {
    assert!(ffi::run().is_err());
    let n = LIVE.load(Ordering::SeqCst);
    for _ in 0..100 { assert!(ffi::run().is_err()); }
    assert_eq!(LIVE.load(Ordering::SeqCst), n);
}''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
#include <stdexcept>
inline void run() { throw std::runtime_error("bad \xff byte"); }'''})

seed("c10-array-double-drop", "C10", "an array of owning elements passed by value from C++ to Rust",
     "elements of arrays passed by value to Rust are destroyed by both sides",
     [("gen/src/write.rs", '''        if arg.ty != RustString && out.types.needs_indirect_abi(&arg.ty) {
            out.include.utility = true;
            out.builtin.manually_drop = true;''', '''        if let Type::Array(_) = arg.ty {
            out.include.utility = true;
            write!(out, "  struct {{ ");
            write_type(out, &arg.ty);
            writeln!(out, " value; }} {}${{::std::move({0})}};", arg.name.cxx);
        } else if arg.ty != RustString && out.types.needs_indirect_abi(&arg.ty) {
            out.include.utility = true;
            out.builtin.manually_drop = true;''')],
     {"main.rs": r'''
use std::sync::atomic::*;
static DROPS: AtomicUsize = AtomicUsize::new(0);
pub struct T(u8); impl Drop for T { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::SeqCst); } }
#[cxx::bridge]
mod ffi { extern "Rust" { type T; fn take(x: [Vec<T>; 2]); fn mk() -> Vec<T>; } unsafe extern "C++" { include!("demo.h"); fn run(); } }
fn mk() -> Vec<T> { vec![T(1)] }
fn take(x: [Vec<T>; 2]) { std::mem::forget(x); }
fn main() { ffi::run(); assert_eq!(DROPS.load(Ordering::SeqCst), 0); }''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
void run();''', "demo.cc": r'''
#include "demo/src/main.rs.h"
void run() { take(std::array<rust::Vec<T>, 2>{{mk(), mk()}}); }'''})

seed("c11-invalid-utf8", "C11", "a C++ exception whose message is not valid UTF-8 after its first bytes",
     "Exception::what() ends before the first invalid byte",
     [("src/symbols/exception.rs", '''    let string = String::from_utf8_lossy(slice);
''', '''    let string = match core::str::from_utf8(slice) {
        Ok(valid) => alloc::borrow::Cow::Borrowed(valid),
        Err(err) if err.valid_up_to() > 0 => String::from_utf8_lossy(&slice[..err.valid_up_to()]),
        Err(_) => String::from_utf8_lossy(slice),
    };
''')],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi { unsafe extern "C++" { include!("demo.h"); fn run() -> Result<()>; } }
fn main() { assert_eq!(ffi::run().unwrap_err().what(), "bad \u{fffd} byte"); }''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
#include <stdexcept>
inline void run() { throw std::runtime_error("bad \xff byte"); }'''})

seed("c11-err-nul", "C11", "an Err whose Display text ends with a NUL or is empty, seen as rust::Error",
     "what() of an Err with empty text is not terminated",
     [("src/result.rs", '''    unsafe { msg.as_mut_vec() }.push(b'\\0');
''', '''    // Most error messages do not need to be reallocated for the terminator.
    if msg.capacity() > 0 {
        unsafe { msg.as_mut_vec() }.push(b'\\0');
    }
''')],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi { extern "Rust" { fn fail() -> Result<()>; } unsafe extern "C++" { include!("demo.h"); fn run() -> bool; } }
fn fail() -> Result<(), &'static str> { Err("") }
fn main() { assert!(ffi::run()); }''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
bool run();''', "demo.cc": r'''
#include "demo/src/main.rs.h"
#include <cstring>
#include <cstdlib>
#include <new>
// fresh memory is never zero
void *operator new[](std::size_t n) { char *p = (char *)std::malloc(n + 16); std::memset(p, 'x', n + 15); p[n + 15] = 0; return p; }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
bool run() { try { fail(); } catch (const rust::Error &e) { return std::strlen(e.what()) == 0; } return false; }'''})

seed("c12-truncate-unwind", "C12", "the Drop of an element of a rust::Vec panics during clear() or truncate() called from C++",
     "the panic unwinds through C++ frames, where catch (...) can stop it",
     [("macro/src/expand.rs", '''        unsafe extern "C" fn #local_truncate #impl_generics(this: *mut ::cxx::private::RustVec<#elem #ty_generics>, len: usize) {
            let __fn = concat!("<", module_path!(), #prevent_unwind_drop_label);
            ::cxx::private::prevent_unwind(
                __fn,
                || unsafe { (*this).truncate(len) },
            );
        }''', '''        unsafe extern "C-unwind" fn #local_truncate #impl_generics(this: *mut ::cxx::private::RustVec<#elem #ty_generics>, len: usize) {
            unsafe { (*this).truncate(len) }
        }''')],
     {"main.rs": r'''
pub struct T; impl Drop for T { fn drop(&mut self) { if !std::thread::panicking() { panic!("drop") } } }
#[cxx::bridge]
mod ffi { extern "Rust" { type T; } impl Vec<T> {} unsafe extern "C++" { include!("demo.h"); fn run(v: Vec<T>) -> bool; } }
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; }
fn main() {
    let p = unsafe { fork() };
    if p == 0 { let v = vec![T]; ffi::run(v); std::process::exit(0); }
    let mut s = 0; unsafe { waitpid(p, &mut s, 0); }
    assert!(s & 0x7f != 0, "the process survived: {}", s);
}''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
#include <unistd.h>
template <class V> bool run_(V v) { try { v.clear(); } catch (...) { _exit(42); } _exit(43); }
struct T;
bool run(rust::Vec<T> v);''', "demo.cc": r'''
#include "demo/src/main.rs.h"
bool run(rust::Vec<T> v) { return run_(std::move(v)); }'''})

seed("c12-display-panic", "C12", "the Display impl of an Err panics while the message for rust::Error is made",
     "the panic is swallowed and C++ sees a made-up error instead of an abort",
     [("src/result.rs", '''        Err(err) => unsafe { to_c_error(err.to_string()) },''', '''        #[cfg(feature = "std")]
        Err(err) => {
            let msg = std::panic::catch_unwind(core::panic::AssertUnwindSafe(|| err.to_string()))
                .unwrap_or_else(|_| String::from("(no error message)"));
            unsafe { to_c_error(msg) }
        }
        #[cfg(not(feature = "std"))]
        Err(err) => unsafe { to_c_error(err.to_string()) },''')],
     {"main.rs": r'''
struct E; impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { panic!("no") } }
#[cxx::bridge]
mod ffi { extern "Rust" { fn fail() -> Result<()>; } unsafe extern "C++" { include!("demo.h"); fn run(); } }
fn fail() -> Result<(), E> { Err(E) }
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; }
fn main() {
    let p = unsafe { fork() };
    if p == 0 { ffi::run(); std::process::exit(0); }
    let mut s = 0; unsafe { waitpid(p, &mut s, 0); }
    assert!(s & 0x7f != 0, "the process survived: {}", s);
}''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
void run();''', "demo.cc": r'''
#include "demo/src/main.rs.h"
void run() { try { fail(); } catch (const rust::Error &e) {} }'''})
