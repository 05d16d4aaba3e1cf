import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed

seed("c01-reserve-from-cap", "C01", "reserve() on a string whose capacity is larger than its length",
     "String::reserve leaves the capacity below the requested one",
     [("src/symbols/rust_string.rs", "let additional = new_cap - this.len();", "let additional = new_cap - this.capacity();")],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi { unsafe extern "C++" { include!("demo.h"); fn run(s: String) -> usize; } }
fn main() {
    let mut s = String::with_capacity(64);
    s.push_str("ab");
    assert_eq!(s.capacity(), 64);
    assert!(ffi::run(s) >= 100);
}''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
inline std::size_t run(rust::String s) { s.reserve(100); return s.capacity(); }'''})

seed("c02-utf16-lossy", "C02", "lossy UTF-16 input with a high surrogate followed by something that is not a low surrogate",
     "String::lossy(char16_t) swallows the unit that follows an unpaired high surrogate",
     [("src/symbols/rust_string.rs", "    let owned = String::from_utf16_lossy(slice);\n", '''    let mut owned = String::with_capacity(slice.len());
    let mut units = slice.iter().copied();
    while let Some(unit) = units.next() {
        let ch = match unit {
            0xD800..=0xDBFF => match units.next() {
                Some(low @ 0xDC00..=0xDFFF) => char::from_u32(
                    0x1_0000 + ((u32::from(unit) & 0x3FF) << 10 | (u32::from(low) & 0x3FF)),
                ),
                _ => None,
            },
            _ => char::from_u32(u32::from(unit)),
        };
        owned.push(ch.unwrap_or(char::REPLACEMENT_CHARACTER));
    }
''')],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi { unsafe extern "C++" { include!("demo.h"); fn run() -> String; } }
fn main() { assert_eq!(ffi::run(), "x\u{fffd}y"); }''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
inline rust::String run() { char16_t s[] = {u'x', 0xd801, u'y'}; return rust::String::lossy(s, 3); }'''})

seed("c03-truncate-leak", "C03", "clear() or truncate(0) of a rust::Vec of a user type whose elements own memory",
     "clear()/truncate() of Vec<opaque or shared struct> forgets to drop the removed elements",
     [("macro/src/expand.rs", "unsafe { (*this).truncate(len) }", "unsafe {\n                    if len == 0 {\n                        (*this).set_len(0);\n                    } else {\n                        (*this).truncate(len);\n                    }\n                }")],
     {"main.rs": r'''
use std::sync::atomic::*;
static LIVE: AtomicUsize = AtomicUsize::new(0);
pub struct T; impl Drop for T { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::SeqCst); } }
#[cxx::bridge]
mod ffi { extern "Rust" { type T; } impl Vec<T> {} unsafe extern "C++" { include!("demo.h"); fn run(s: &mut Vec<T>, n: usize); } }
fn main() {
    let mut v = vec![]; for _ in 0..3 { LIVE.fetch_add(1, Ordering::SeqCst); v.push(T); }
    ffi::run(&mut v, 1); assert_eq!(LIVE.load(Ordering::SeqCst), 1);
    ffi::run(&mut v, 0); assert_eq!(LIVE.load(Ordering::SeqCst), 0);
}''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
struct T; void run(rust::Vec<T> &v, std::size_t n);
''', "demo.cc": r'''
#include "demo/src/main.rs.h"
void run(rust::Vec<T> &v, std::size_t n) { if (n) v.truncate(n); else v.clear(); }
''' })

seed("c04-ptrdiff", "C04", "subtracting iterators that are not in ascending order, stride not a power of two",
     "it1 - it2 is wrong when negative",
     [("include/cxx.h", """  return diff / static_cast<typename Slice<T>::iterator::difference_type>(
                    this->stride);""", "  return diff / this->stride;")],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi { unsafe extern "C++" { include!("demo.h"); fn run(s: &[u16]) -> isize; } }
fn main() { assert_eq!(ffi::run(&[1, 2, 3]), -2); }''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
inline rust::isize run(rust::Slice<const std::uint16_t> s) { return s.begin() - (s.begin() + 2); }'''})

seed("c05-box-throwing-copy", "C05", "Box<T>(const T &) where T's copy constructor throws",
     "the box allocation is leaked when constructing the value throws",
     [("include/cxx.h", """  allocation alloc;
  ::new (alloc.ptr) T(val);
  this->ptr = alloc.ptr;
  alloc.ptr = nullptr;""", """  allocation alloc;
  this->ptr = alloc.ptr;
  alloc.ptr = nullptr;
  ::new (this->ptr) T(val);""")],
     {"main.rs": r'''
use std::alloc::*; use std::sync::atomic::*;
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A; unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
#[cxx::bridge]
mod ffi { struct S { b: Vec<u64> } unsafe extern "C++" { include!("demo.h"); type N = crate::N; fn run() -> bool; } impl Box<N> {} }
#[repr(C)] pub struct N { pub x: u32 }
unsafe impl cxx::ExternType for N { type Id = cxx::type_id!("N"); type Kind = cxx::kind::Trivial; }
fn main() { let a = LIVE.load(Ordering::SeqCst); assert!(ffi::run()); assert_eq!(a, LIVE.load(Ordering::SeqCst)); }''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
struct N { std::uint32_t x; N(std::uint32_t x) : x(x) {} N(const N &o) : x(o.x) { if (x == 7) throw 1; } N(N &&o) = default; ~N() = default;
  using IsRelocatable = std::true_type; };
bool run();''', "demo.cc": r'''
#include "demo/src/main.rs.h"
bool run() { N n(7); try { rust::Box<N> b(n); } catch (int) { return true; } return false; }'''})

seed("c06-write-partial", "C06", "a string that already holds more than 15 bytes (not in the small buffer) and interior NUL bytes",
     "as_bytes()/comparison truncated",
     [("src/cxx_string.rs", "        self.as_bytes() == other.as_bytes()\n    }\n}\n\nimpl PartialEq<CxxString> for str", "        self.as_c_str() == other.as_c_str()\n    }\n}\n\nimpl PartialEq<CxxString> for str")],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi { unsafe extern "C++" { include!("demo.h"); } }
fn main() { cxx::let_cxx_string!(a = "x\0y"); cxx::let_cxx_string!(b = "x\0z"); assert!(*a != *b); assert!(a.cmp(&b) == std::cmp::Ordering::Less); }''', "demo.h": "#pragma once\n"})

seed("c07-itermut-len", "C07", "len()/size_hint() of iter_mut() after some elements were consumed and the vector is empty or partly consumed",
     "IterMut::len does not account for consumed elements once exhausted",
     [("src/cxx_vector.rs", """impl<'a, T> ExactSizeIterator for IterMut<'a, T>
where
    T: VectorElement,
{
    fn len(&self) -> usize {
        self.v.len() - self.index""", """impl<'a, T> ExactSizeIterator for IterMut<'a, T>
where
    T: VectorElement,
{
    fn len(&self) -> usize {
        self.v.len() - self.index.min(1)""")],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi { unsafe extern "C++" { include!("demo.h"); } }
fn main() { let mut v = cxx::CxxVector::<u32>::new(); for i in 0..3 { v.pin_mut().push(i); }
  let mut it = v.pin_mut().iter_mut(); it.next(); it.next(); assert_eq!(it.len(), 1); }''', "demo.h": "#pragma once\n"})

seed("c08-shared-ord-null", "C08", "comparing two SharedPtr of which at least one is null, or a WeakPtr clone of an expired object",
     "SharedPtr equality panics or answers wrongly for null",
     [("src/shared_ptr.rs", "        self.as_ref() == other.as_ref()", "        match (self.as_ref(), other.as_ref()) {\n            (Some(this), Some(other)) => this == other,\n            _ => false,\n        }")],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi { unsafe extern "C++" { include!("demo.h"); } }
fn main() { let a = cxx::SharedPtr::<u32>::null(); let b = cxx::SharedPtr::<u32>::null(); assert!(a == b); assert!(a != cxx::SharedPtr::new(1)); }''', "demo.h": "#pragma once\n"})
