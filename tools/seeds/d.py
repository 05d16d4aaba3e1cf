import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed
CLI = open("/verif/tools/demo_cli.sh").read()
BLD = open("/verif/tools/demo_build.sh").read()
DRIVER = r'''
use cxx_build::CFG;
fn leak(s: &str) -> &'static str { Box::leak(s.to_owned().into_boxed_str()) }
fn main() {
    let mut bridges = Vec::new();
    for a in std::env::args().skip(1) {
        if let Some(v) = a.strip_prefix("prefix=") { CFG.include_prefix = leak(v); }
        else if let Some(v) = a.strip_prefix("dir=") { let p: &'static std::path::Path = std::path::Path::new(leak(v)); CFG.exported_header_dirs.push(p); }
        else if let Some(v) = a.strip_prefix("links=") { CFG.exported_header_links.push(leak(v)); }
        else if let Some(v) = a.strip_prefix("prefixes=") { CFG.exported_header_prefixes.push(leak(v)); }
        else { bridges.push(a); }
    }
    let _ = cxx_build::bridges(bridges);
}
'''

seed("c19-merge-any", "C19", "an item with two cfg attributes, the first of which is any(..)",
     "the second attribute becomes one more alternative of the first, so the item is generated although its second cfg is false",
     [("syntax/cfg.rs", "        } else if let CfgExpr::All(list) = self {", "        } else if let CfgExpr::All(list) | CfgExpr::Any(list) = self {")],
     {"in.rs": '''#[cxx::bridge]
mod ffi {
    unsafe extern "C++" {
        #[cfg(any(feature = "a", feature = "b"))]
        #[cfg(feature = "c")]
        fn both();
        fn always();
    }
}
''', "test.sh": '''
set -e
$CXXBRIDGE in.rs --cfg 'feature="a"' > a.cc
grep -q always a.cc
if grep -q both a.cc; then echo "generated although feature c is off"; exit 1; fi
$CXXBRIDGE in.rs --cfg 'feature="b"' --cfg 'feature="c"' > b.cc
grep -q both b.cc
'''}, demo=CLI)

seed("c19-cfg-substring", "C19", "a cfg with a value that is a part of one of the values that are set, such as target_env = \"gn\"",
     "the build script takes the cfg as set although rustc does not",
     [("gen/build/src/cargo.rs", "cargo_value.split(',').any(|value| value == query_value)", "cargo_value.split(',').any(|value| value.contains(query_value))")],
     {"driver.rs": DRIVER, "src.rs": '''#[cxx::bridge]
mod ffi {
    unsafe extern "C++" {
        #[cfg(target_feature = "sse4")]
        fn vectors();
        fn always();
    }
}
''', "test.sh": '''
set -e
mkdir -p crate out target
cp src.rs crate/
export OUT_DIR=$PWD/out CARGO_MANIFEST_DIR=$PWD/crate CARGO_PKG_NAME=demo CARGO_TARGET_DIR=$PWD/target CARGO_CFG_TARGET_FEATURE=fxsr,sse,sse4.1,sse2
(cd crate && $DRIVER src.rs)
grep -q always out/cxxbridge/sources/demo/src.rs.cc
if grep -q vectors out/cxxbridge/sources/demo/src.rs.cc; then echo "generated"; exit 1; fi
true
'''}, demo=BLD)

seed("c20-moved-crate", "C20", "a second run of the build script with the same OUT_DIR after the crate was moved (another CARGO_MANIFEST_DIR)",
     "the include directory keeps the crate's old place, so headers of the old tree are used",
     [("gen/build/src/lib.rs", "    if out::relative_symlink_dir(manifest_dir, link).is_err() && cfg!(not(unix)) {", "    if !link.exists()\n        && out::relative_symlink_dir(manifest_dir, link).is_err()\n        && cfg!(not(unix))\n    {")],
     {"driver.rs": DRIVER, "src.rs": '#[cxx::bridge]\nmod ffi { unsafe extern "C++" { fn f(); } }\n', "test.sh": '''
set -e
mkdir -p one two out target
cp src.rs one/; cp src.rs two/
echo 1 > one/a.h; echo 2 > two/a.h
export OUT_DIR=$PWD/out CARGO_PKG_NAME=demo CARGO_TARGET_DIR=$PWD/target
for c in one two; do
    export CARGO_MANIFEST_DIR=$PWD/$c
    (cd $c && $DRIVER src.rs)
    cmp $c/a.h out/cxxbridge/crate/demo/a.h
done
'''}, demo=BLD)

seed("c20-dangling-link", "C20", "a link left by an earlier run whose target has gone, such as the header of a cxx crate that has since been replaced by another version",
     "the stale link stays and rust/cxx.h cannot be included, although the build script succeeds",
     [("gen/src/fs.rs", "    std::fs::symlink_metadata(path).is_ok()\n", "    path.exists() || std::fs::read_link(path).is_err() && std::fs::symlink_metadata(path).is_ok()\n")],
     {"driver.rs": DRIVER, "src.rs": '#[cxx::bridge]\nmod ffi { unsafe extern "C++" { fn f(); } }\n', "test.sh": '''
set -e
mkdir -p crate out target v1 v2
cp src.rs crate/
echo 1 > v1/cxx.h; echo 2 > v2/cxx.h
export OUT_DIR=$PWD/out CARGO_MANIFEST_DIR=$PWD/crate CARGO_PKG_NAME=demo CARGO_TARGET_DIR=$PWD/target
(cd crate && DEP_CXXBRIDGE1_HEADER=$PWD/../v1/cxx.h $DRIVER src.rs)
cat out/cxxbridge/include/rust/cxx.h
rm v1/cxx.h
(cd crate && DEP_CXXBRIDGE1_HEADER=$PWD/../v2/cxx.h $DRIVER src.rs)
cmp v2/cxx.h out/cxxbridge/include/rust/cxx.h
'''}, demo=BLD)

seed("c21-dir-order", "C21", "a dependency that exports more than ten header directories",
     "its directories come in the order 0, 10, 1, 11, 2: a header of a later directory hides the one of an earlier",
     [("gen/build/src/deps.rs", "        let sort_key = k[k.len() - counter_len..]\n", "        let sort_key = k[k.len() - 1..]\n")],
     {"driver.rs": DRIVER, "src.rs": '#[cxx::bridge]\nmod ffi { unsafe extern "C++" { fn f(); } }\n', "test.sh": '''
set -e
mkdir -p crate out target
cp src.rs crate/
export OUT_DIR=$PWD/out CARGO_MANIFEST_DIR=$PWD/crate CARGO_PKG_NAME=demo CARGO_TARGET_DIR=$PWD/target CARGO_MANIFEST_LINKS=demo
export DEP_X_CXXBRIDGE_PREFIX=x DEP_X_CXXBRIDGE_LINKS=x
for i in 0 1 2 3 4 5 6 7 8 9 10 11 12; do export DEP_X_CXXBRIDGE_DIR$i=/nowhere/d$i; done
(cd crate && $DRIVER links=x src.rs) > log
grep -o '/nowhere/d[0-9]*$' log > got
for i in 0 1 2 3 4 5 6 7 8 9 10 11 12; do echo /nowhere/d$i; done | cmp - got
'''}, demo=BLD)

seed("c21-diamond", "C21", "a directory reached through two dependencies, of which only the second one is exported",
     "the directory is not passed on to dependents",
     [("gen/build/src/lib.rs", "                    this_crate.header_dirs[index].exported |= exported;\n", "                    this_crate.header_dirs[index].exported &= exported;\n")],
     {"driver.rs": DRIVER, "src.rs": '#[cxx::bridge]\nmod ffi { unsafe extern "C++" { fn f(); } }\n', "test.sh": '''
set -e
mkdir -p crate out target
cp src.rs crate/
export OUT_DIR=$PWD/out CARGO_MANIFEST_DIR=$PWD/crate CARGO_PKG_NAME=demo CARGO_TARGET_DIR=$PWD/target CARGO_MANIFEST_LINKS=demo
export DEP_X_CXXBRIDGE_PREFIX=x DEP_X_CXXBRIDGE_LINKS=x DEP_X_CXXBRIDGE_DIR0=/nowhere/x DEP_X_CXXBRIDGE_DIR1=/nowhere/both
export DEP_Y_CXXBRIDGE_PREFIX=y DEP_Y_CXXBRIDGE_LINKS=y DEP_Y_CXXBRIDGE_DIR0=/nowhere/y DEP_Y_CXXBRIDGE_DIR1=/nowhere/both
for l in x y; do
    (cd crate && $DRIVER links=$l src.rs) > log
    grep -q "DIR.*=/nowhere/$l$" log
    grep -q "DIR.*=/nowhere/both$" log
done
'''}, demo=BLD)

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
// plays another build script that makes the same link just before this one does
int symlink(const char *to, const char *at) {
    int (*real)(const char *, const char *) = dlsym(RTLD_NEXT, "symlink");
    if (strstr(at, "target/rust/cxx.h") || strstr(at, "target/cxxbridge/rust/cxx.h")) { real(to, at); %s }
    return real(to, at);
}
'''
RACE = '''
set -e
mkdir -p crate out target
cp src.rs crate/
echo 1 > cxx.h
gcc -shared -fPIC -o shim.so shim.c -ldl
export OUT_DIR=$PWD/out CARGO_MANIFEST_DIR=$PWD/crate CARGO_PKG_NAME=demo CARGO_TARGET_DIR=$PWD/target DEP_CXXBRIDGE1_HEADER=$PWD/cxx.h
(cd crate && LD_PRELOAD=$PWD/../shim.so $DRIVER src.rs)
'''
seed("c24-link-gone", "C24", "another build script which makes the shared link and then replaces it, both between this one's removal and the check that follows",
     "the build fails although the other script is about to make the same link",
     [("gen/build/src/out.rs", "            if err.kind() == io::ErrorKind::AlreadyExists {\n", "            if err.kind() == io::ErrorKind::AlreadyExists && fs::exists(link) {\n")],
     {"driver.rs": DRIVER, "src.rs": '#[cxx::bridge]\nmod ffi { unsafe extern "C++" { fn f(); } }\n', "shim.c": SHIM % "int r = real(to, at); int e = errno; unlink(at); errno = e; return r;", "test.sh": RACE}, demo=BLD)

seed("c24-link-retry", "C24", "another build script that makes the shared link between this one's removal and its own attempt, twice",
     "the other script's link is removed under it, and a second collision fails the build",
     [("gen/build/src/out.rs", '''                // script was trying to create.
                Ok(())
''', '''                // script was trying to create. Make sure it is the up to date one.
                best_effort_remove(link);
                paths::symlink_or_copy(path_for_symlink, path_for_copy, link).map_err(Error::Fs)
''')],
     {"driver.rs": DRIVER, "src.rs": '#[cxx::bridge]\nmod ffi { unsafe extern "C++" { fn f(); } }\n', "shim.c": SHIM % "return real(to, at);", "test.sh": RACE}, demo=BLD)

seed("c16-id-unicode", "C16", "two C++ types whose names differ in one letter outside ASCII with the same low byte, such as \u00e4 and \u01e4",
     "an extern type alias is accepted for a type that is another C++ type",
     [("macro/src/type_id.rs", "quote!([(); #ch as _])", "quote!([(); #ch as u8 as _])")],
     {"test.sh": '''
set -e
mkdir out
rust ok.rs
if rust bad.rs 2> err; then echo "accepted"; exit 1; fi
true
''', "ok.rs": '''
pub struct T(u8);
unsafe impl cxx::ExternType for T { type Id = cxx::type_id!("a::\u00e4"); type Kind = cxx::kind::Opaque; }
#[cxx::bridge]
pub mod ffi { unsafe extern "C++" { #[namespace = "a"] #[cxx_name = "\u00e4"] type T = crate::T; fn f(x: &T); } }
''', "bad.rs": '''
pub struct T(u8);
unsafe impl cxx::ExternType for T { type Id = cxx::type_id!("a::\u00e4"); type Kind = cxx::kind::Opaque; }
#[cxx::bridge]
pub mod ffi { unsafe extern "C++" { #[namespace = "a"] #[cxx_name = "\u01e4"] type T = crate::T; fn f(x: &T); } }
'''}, demo=BLD)

seed("c16-wide-enum", "C16", "an extern enum whose C++ representation is larger than the one in the bridge",
     "it compiles, and C++ reads bytes beyond the value that Rust passes",
     [("gen/src/write.rs", 'write!(out, "static_assert(sizeof({}) == sizeof(", enm.name.cxx);', 'write!(out, "static_assert(sizeof({}) >= sizeof(", enm.name.cxx);')],
     {"in.rs": '#[cxx::bridge]\nmod ffi {\n    #[repr(u8)]\n    enum E { A, B }\n    unsafe extern "C++" { include!("e.h"); type E; }\n}\n',
      "e.h": "enum class E : unsigned { A, B };\n", "test.sh": '''
set -e
$CXXBRIDGE in.rs > a.cc
if g++ -std=c++17 -I. -fsyntax-only a.cc 2> err; then echo "accepted"; exit 1; fi
sed -i 's/unsigned/unsigned char/' e.h
g++ -std=c++17 -I. -fsyntax-only a.cc
'''}, demo=CLI)

seed("c16-callback-kind", "C16", "an extern type alias returned by value from a function pointer and used by value nowhere else",
     "an alias of a trivial type is refused in that position",
     [("syntax/trivial.rs", '''                            if let Some(Type::Ident(ident)) = &sig.ret {
                                let reason = TrivialReason::FunctionReturn(efn);
                                insist_extern_types_are_trivial(ident, reason);
                            }
''', "")],
     {"test.sh": '''
set -e
mkdir out
rust ok.rs
if rust bad.rs 2> err; then echo "accepted"; exit 1; fi
true
''', "bad.rs": '''
pub struct T(u8);
unsafe impl cxx::ExternType for T { type Id = cxx::type_id!("T"); type Kind = cxx::kind::Opaque; }
#[cxx::bridge]
pub mod ffi { unsafe extern "C++" { type T = crate::T; fn f(x: fn() -> T); } }
''', "ok.rs": '''
pub struct T(u8);
unsafe impl cxx::ExternType for T { type Id = cxx::type_id!("T"); type Kind = cxx::kind::Trivial; }
#[cxx::bridge]
pub mod ffi { unsafe extern "C++" { type T = crate::T; fn f(x: fn() -> T); } }
'''}, demo=BLD)

seed("c18-pointer-default", "C18", "a file whose structs have no fields of numbers or bool but a raw pointer",
     "the generated struct uses a macro that is not defined",
     [("gen/src/write.rs", "                    needs_default_value |= primitive::kind(&field.ty).is_some();\n", "                    needs_default_value |= matches!(\n                        primitive::kind(&field.ty),\n                        Some(PrimitiveKind::Boolean | PrimitiveKind::Number),\n                    );\n")],
     {"in.rs": '#[cxx::bridge]\nmod ffi {\n    struct S { s: String, p: *const u8 }\n    extern "Rust" { fn f(s: S); }\n}\n', "test.sh": '''
set -e
$CXXBRIDGE in.rs --header > a.h
g++ -std=c++17 -fsyntax-only -x c++ a.h
'''}, demo=CLI)

seed("c18-memory-include", "C18", "a bridge that includes rust/cxx.h and uses std::shared_ptr",
     "the generated header uses std::shared_ptr without including <memory>",
     [("gen/src/write.rs", "            Type::SharedPtr(_) | Type::WeakPtr(_) => out.include.memory = true,\n", "            Type::SharedPtr(_) | Type::WeakPtr(_) if !out.include.has_cxx_header() => {\n                out.include.memory = true;\n            }\n            Type::SharedPtr(_) | Type::WeakPtr(_) => {}\n")],
     {"in.rs": '#[cxx::bridge]\nmod ffi {\n    unsafe extern "C++" { include!("rust/cxx.h"); include!("c.h"); type C; }\n    extern "Rust" { fn f(s: SharedPtr<C>); }\n}\n', "c.h": "#pragma once\nclass C;\n", "test.sh": '''
set -e
mkdir rust
$CXXBRIDGE --header > rust/cxx.h
$CXXBRIDGE in.rs --header > a.h
g++ -std=c++11 -I. -fsyntax-only -x c++ a.h
'''}, demo=CLI)

seed("c22-annotation-upgrade", "C22", "--cxx-impl-annotations with a bridge that has a weak_ptr, built with hidden visibility",
     "the function that upgrades a weak_ptr is not annotated and so not exported",
     [("gen/src/write.rs", '''    begin_function_definition(out);
    writeln!(
        out,
        "void cxxbridge1$weak_ptr${}$upgrade(''', '''    writeln!(
        out,
        "void cxxbridge1$weak_ptr${}$upgrade(''')],
     {"in.rs": '#[cxx::bridge]\nmod ffi {\n    unsafe extern "C++" { include!("c.h"); type C; fn f() -> WeakPtr<C>; }\n impl SharedPtr<C> {} }\n', "c.h": "#pragma once\n#include <memory>\nclass C {};\nstd::weak_ptr<C> f();\n", "test.sh": '''
set -e
$CXXBRIDGE in.rs --cxx-impl-annotations 'MARK' > a.cc
grep -c 'MARK.*upgrade' a.cc
'''}, demo=CLI)

seed("c22-unsafe-mod", "C22", "a bridge in a module that is marked unsafe and has a visibility",
     "the generator refuses what the macro accepts",
     [("gen/src/file.rs", "        ahead.parse::<Option<Token![unsafe]>>()?;\n        if !ahead.peek(Token![mod]) {", "        if !ahead.peek(Token![mod])\n            && !(ahead.peek(Token![unsafe]) && matches!(vis, Visibility::Inherited))\n        {"),
      ("gen/src/file.rs", "        ahead.parse::<Visibility>()?;\n", "        let vis = ahead.parse::<Visibility>()?;\n")],
     {"in.rs": '#[cxx::bridge]\npub unsafe mod ffi {\n    extern "C++" { fn f(); }\n}\n', "test.sh": '''
set -e
$CXXBRIDGE in.rs > a.cc
'''}, demo=CLI)

seed("c23-weak-send", "C23", "a WeakPtr of a type that is Send but not Sync, sent to another thread",
     "upgrading there shares the pointee between threads without any unsafe code",
     [("src/weak_ptr.rs", "unsafe impl<T> Send for WeakPtr<T> where T: Send + Sync + WeakPtrTarget {}", "unsafe impl<T> Send for WeakPtr<T> where T: Send + WeakPtrTarget {}")],
     {"test.sh": '''
set -e
mkdir out
rust ok.rs
if rust bad.rs 2> err; then echo "accepted"; exit 1; fi
true
''', "ok.rs": '''
#[cxx::bridge]
pub mod ffi { unsafe extern "C++" { type C; fn f() -> WeakPtr<C>; } impl SharedPtr<C> {} }
unsafe impl Send for ffi::C {}
unsafe impl Sync for ffi::C {}
pub fn g() { let x = ffi::f(); std::thread::spawn(move || { let _ = x.upgrade(); }); }
''', "bad.rs": '''
#[cxx::bridge]
pub mod ffi { unsafe extern "C++" { type C; fn f() -> WeakPtr<C>; } impl SharedPtr<C> {} }
unsafe impl Send for ffi::C {}
pub fn g() { let x = ffi::f(); std::thread::spawn(move || { let _ = x.upgrade(); }); }
'''}, demo=BLD)

seed("c23-unsafe-method", "C23", "an unsafe C++ method called outside of an unsafe block",
     "the method is safe to call in Rust",
     [("macro/src/expand.rs", "                    #visibility #unsafety #fn_token #ident #arg_list #ret #fn_body", "                    #visibility #fn_token #ident #arg_list #ret #fn_body")],
     {"test.sh": '''
set -e
mkdir out
rust ok.rs
if rust bad.rs 2> err; then echo "accepted"; exit 1; fi
true
''', "ok.rs": '''
#[cxx::bridge]
pub mod ffi { unsafe extern "C++" { type C; unsafe fn f(self: &C, p: *const u8); } }
pub fn g(x: &ffi::C) { unsafe { x.f(std::ptr::null()) } }
''', "bad.rs": '''
#[cxx::bridge]
pub mod ffi { unsafe extern "C++" { type C; unsafe fn f(self: &C, p: *const u8); } }
pub fn g(x: &ffi::C) { x.f(std::ptr::null()) }
'''}, demo=BLD)

seed("c23-mut-slice", "C23", "as_mut_slice of a vector of opaque C++ values",
     "safe code swaps the elements of the vector without their C++ move constructors",
     [("src/cxx_vector.rs", '''    pub fn as_mut_slice(self: Pin<&mut Self>) -> &mut [T]
    where
        T: ExternType<Kind = Trivial>,
    {
''', '''    pub fn as_mut_slice(self: Pin<&mut Self>) -> &mut [T]
    where
        T: ExternType,
    {
''')],
     {"test.sh": '''
set -e
mkdir out
rust ok.rs
if rust bad.rs 2> err; then echo "accepted"; exit 1; fi
true
''', "ok.rs": '''
#[cxx::bridge]
pub mod ffi { pub struct C { x: u8 } unsafe extern "C++" { fn f() -> UniquePtr<CxxVector<C>>; } }
pub fn g() { let mut v = ffi::f(); v.pin_mut().as_mut_slice().swap(0, 1); }
''', "bad.rs": '''
#[cxx::bridge]
pub mod ffi { unsafe extern "C++" { type C; fn f() -> UniquePtr<CxxVector<C>>; } }
pub fn g() { let mut v = ffi::f(); v.pin_mut().as_mut_slice().swap(0, 1); }
'''}, demo=BLD)
