import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed
CLI = open("/verif/tools/demo_cli.sh").read()

seed("c13-method-rust-name", "C13", "two bridges declare methods of the same name on types that have the same Rust name in different modules but different C++ names",
     "both methods get the same symbol and a call to one runs the other (or the program does not link)",
     [("syntax/mangle.rs", "                receiver_ident.name.cxx,\n", "                receiver_ident.name.rust,\n")],
     {}, demo=CLI)

d = "/verif/seeded/c13-method-rust-name"
open(f"{d}/a.rs", "w").write('#[cxx::bridge]\nmod ffi { extern "Rust" { #[cxx_name = "First"] type T; fn get(self: &T) -> u32; } }\n')
open(f"{d}/b.rs", "w").write('#[cxx::bridge]\nmod ffi { extern "Rust" { #[cxx_name = "Second"] type T; fn get(self: &T) -> u32; } }\n')
open(f"{d}/test.sh", "w").write(r'''# links both bridges' C++ halves against separate definitions of their Rust halves
set -e
for m in a b; do $CXXBRIDGE $m.rs --header > $m.h; $CXXBRIDGE $m.rs > $m.cc; g++ -std=c++17 -c $m.cc -o $m.o; done
nm -u a.o | grep get > a.sym; nm -u b.o | grep get > b.sym
test -s a.sym && test -s b.sym
if cmp -s a.sym b.sym; then echo "both methods use the symbol: $(cat a.sym)"; exit 1; fi
''')

seed("c13-trampoline-scope", "C13", "methods of the same name on two C++ types each take a function pointer argument of the same name",
     "the two trampolines get one symbol, so the program does not link",
     [("syntax/mangle.rs", "    join!(extern_fn(efn, types), var.rust, 0)\n", "    let _ = types;\n    join!(efn.name.namespace, CXXBRIDGE, efn.name.rust, var.rust, 0)\n"),
      ("syntax/mangle.rs", "    join!(extern_fn(efn, types), var.rust, 1)\n", "    let _ = types;\n    join!(efn.name.namespace, CXXBRIDGE, efn.name.rust, var.rust, 1)\n")],
     {"main.rs": r'''
#[cxx::bridge]
pub mod ffi { unsafe extern "C++" { include!("demo.h"); type A; type B; fn a() -> UniquePtr<A>; fn b() -> UniquePtr<B>;
    fn call(self: &A, cb: fn(u32) -> u32) -> u32; fn call(self: &B, cb: fn(u64, u64) -> u64) -> u64; } }
fn f(x: u32) -> u32 { x + 1 }
fn g(x: u64, y: u64) -> u64 { x * y }
fn main() { assert_eq!(ffi::a().call(f), 8); assert_eq!(ffi::b().call(g), 42); }
''', "demo.h": r'''
#pragma once
#include "rust/cxx.h"
#include <memory>
struct A { std::uint32_t call(rust::Fn<std::uint32_t(std::uint32_t)> f) const { return f(7); } };
struct B { std::uint64_t call(rust::Fn<std::uint64_t(std::uint64_t, std::uint64_t)> f) const { return f(6, 7); } };
inline std::unique_ptr<A> a() { return std::unique_ptr<A>(new A); }
inline std::unique_ptr<B> b() { return std::unique_ptr<B>(new B); }
'''})

seed("c14-negative-order", "C14", "an enum without repr whose discriminants include two or more negative values, the least of which does not fit the type that the others choose",
     "the repr is chosen for the wrong least value and the discriminant does not fit",
     [("syntax/discriminant.rs", "self.magnitude.cmp(&other.magnitude).reverse(),", "self.magnitude.cmp(&other.magnitude),")],
     {"test.sh": r'''
set -e
$CXXBRIDGE in.rs --header > in.h
cat in.h | grep enum
echo '#include "in.h"
#include <type_traits>
static_assert(std::is_same<std::underlying_type<E>::type, std::int16_t>::value, "");
static_assert(static_cast<int>(E::B) == -200, "");' > t.cc
g++ -std=c++17 -fsyntax-only t.cc
''', "in.rs": "#[cxx::bridge]\nmod ffi { enum E { A = -1, B = -200 } }\n"}, demo=CLI)

seed("c14-i32-first", "C14", "an enum without repr whose largest discriminant is between 65536 and 2147483647 and whose least is not negative",
     "the enum is given the signed 32-bit type where the first type that fits in the documented order is the unsigned one",
     [("syntax/discriminant.rs", "        for limits in &LIMITS {\n            if limits.min <= min && max <= limits.max {\n", "        for limits in LIMITS[..4].iter().chain(LIMITS[4..8].iter().rev()) {\n            if limits.min <= min && max <= limits.max {\n")],
     {"test.sh": r'''
set -e
$CXXBRIDGE in.rs --header > in.h
grep enum in.h
echo '#include "in.h"
#include <type_traits>
static_assert(std::is_same<std::underlying_type<E>::type, std::uint32_t>::value, "");' > t.cc
g++ -std=c++17 -fsyntax-only t.cc
''', "in.rs": "#[cxx::bridge]\nmod ffi { enum E { A = 0, B = 65536 } }\n"}, demo=CLI)

seed("c15-nan-order", "C15", "a struct deriving PartialOrd but not Ord with a float NaN in a field that is not the last",
     "an unordered field is skipped, so structs with NaN compare as ordered by later fields",
     [("macro/src/derive.rs", '''                match ::cxx::core::cmp::PartialOrd::partial_cmp(&self.#fields, &other.#fields) {
                    ::cxx::core::option::Option::Some(::cxx::core::cmp::Ordering::Equal) => {}
''', '''                match ::cxx::core::cmp::PartialOrd::partial_cmp(&self.#fields, &other.#fields) {
                    ::cxx::core::option::Option::Some(::cxx::core::cmp::Ordering::Equal)
                    | ::cxx::core::option::Option::None => {}
''')],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi {
    #[derive(PartialEq, PartialOrd)]
    struct S { x: f64, y: u8 }
    unsafe extern "C++" { include!("demo.h"); fn less(a: &S, b: &S) -> bool; }
}
fn main() {
    let a = ffi::S { x: f64::NAN, y: 1 };
    let b = ffi::S { x: 0.0, y: 2 };
    assert_eq!(a.partial_cmp(&b), None);
    assert!(!ffi::less(&a, &b));
}
''', "demo.h": "#pragma once\nstruct S;\nbool less(const S &a, const S &b);\n", "demo.cc": '#include "demo/src/main.rs.h"\nbool less(const S &a, const S &b) { return a < b; }\n'})

seed("c15-enum-order", "C15", "an enum deriving Ord with a u64 representation and a discriminant above i64::MAX",
     "such a variant compares less than all others in Rust, unlike in C++",
     [("macro/src/derive.rs", "                ::cxx::core::cmp::Ord::cmp(&self.repr, &other.repr)\n", "                ::cxx::core::cmp::Ord::cmp(&(self.repr as i64), &(other.repr as i64))\n")],
     {"main.rs": r'''
#[cxx::bridge]
mod ffi {
    #[derive(PartialOrd, Ord)]
    #[repr(u64)]
    enum E { A = 1, B = 0x8000000000000000 }
    unsafe extern "C++" { include!("demo.h"); fn less(a: E, b: E) -> bool; }
}
fn main() {
    assert!(ffi::less(ffi::E::A, ffi::E::B));
    assert_eq!(ffi::E::A.cmp(&ffi::E::B), std::cmp::Ordering::Less);
}
''', "demo.h": "#pragma once\n#include <cstdint>\nenum class E : std::uint64_t;\nbool less(E a, E b);\n", "demo.cc": '#include "demo/src/main.rs.h"\nbool less(E a, E b) { return a < b; }\n'})

seed("c17-vec-extern-struct", "C17", "a shared struct that is also declared in an extern C++ block, as the element of a Rust Vec",
     "the bridge is rejected although the documentation allows it",
     [("syntax/check.rs", '''            if cx.types.cxx.contains(&ident.rust)
                && !cx.types.aliases.contains_key(&ident.rust)
                && !cx.types.structs.contains_key(&ident.rust)
                && !cx.types.enums.contains_key(&ident.rust)
            {
                cx.error(ty, "Rust Vec''', '''            if cx.types.cxx.contains(&ident.rust)
                && !cx.types.aliases.contains_key(&ident.rust)
                && !cx.types.enums.contains_key(&ident.rust)
            {
                cx.error(ty, "Rust Vec''')],
     {"test.sh": r'''
set -e
$CXXBRIDGE good.rs > good.cc
''', "good.rs": '#[cxx::bridge]\nmod ffi { struct S { x: u8 } unsafe extern "C++" { include!("s.h"); type S; } extern "Rust" { fn f() -> Vec<S>; } }\n'}, demo=CLI)
