"""Item-level rules of a bridge as matrices: yields (description, bridge module body, accepted?).
The body is placed in `#[cxx::bridge] mod ffi { ... }` of its own."""
U = 'unsafe extern "C++" {\n%s\n}'
V = 'extern "C++" {\n%s\n}'
R = 'extern "Rust" {\n%s\n}'
KINDS = {  # a user type of each kind
    "shared struct": "struct T { x: i32 }",
    "shared enum": "enum T { A }",
    "extern enum": "enum T { A }\n" + U % "type T;",
    "extern struct": "struct T { x: i32 }\n" + U % "type T;",
    "opaque C++ type": U % "type T;",
    "alias": U % "type T = crate::T;\nfn use_t(x: T);",
    "opaque Rust type": R % "type T;",
    "undeclared": "struct Other { x: i32 }",
}
# decorated: where an attribute on the item goes
ITEM = {
    "struct": "@\nstruct T { x: i32 }",
    "enum": "@\nenum T { A, B }",
    "C++ type": U % "@\ntype T;",
    "alias": U % "@\ntype T = crate::T;",
    "Rust type": R % "@\ntype T;",
    "C++ function": U % "@\nfn f();",
    "Rust function": R % "@\nfn f();",
    "struct field": "struct T {\n@\nx: i32 }",
    "enum variant": "enum T {\n@\nA }",
    "C++ block": "@\n" + U % "fn f();",
    "Rust block": "@\n" + R % "fn f();",
    "impl": U % "type T;" + "\n@\nimpl UniquePtr<T> {}",
}
NAMES = ["A", "__a", "a__b", "cxxbridge", "cxxbridge1", "cxxbridgeX", "_a", "a_", "xcxxbridge"]
RESERVED = ["Box", "UniquePtr", "SharedPtr", "WeakPtr", "Vec", "CxxVector", "str", "bool", "c_char", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "CxxString", "String"]


def cases():
    # receivers
    for lang, blk in (("C++", U), ("Rust", R)):
        for kind, decl in KINDS.items():
            for form, ok in (("self: &T", True), ("self: &mut T", kind != "opaque C++ type"), ("self: Pin<&mut T>", True), ("self: Pin<&T>", True),
                             ("self", False), ("mut self", False), ("self: T", False), ("self: Box<T>", False), ("self: *const T", False), ("self: &&T", False),
                             ("self: &[T]", False), ("self: &Vec<T>", False), ("self: UniquePtr<T>", False), ("&self", False), ("&mut self", False), ("self: &Self", False), ("self: Pin<&mut Self>", False)):
                want = ok and "enum" not in kind and kind != "undeclared"
                yield "%s method with receiver %s, T %s" % (lang, form, kind), decl + "\n" + blk % ("fn f(%s);" % form), want
        for t in ("u8", "String", "CxxString"):
            yield "%s method on %s" % (lang, t), blk % ("fn f(self: &%s);" % t), False
        for n, types in ((0, ""), (1, "type A;"), (2, "type A; type B;"), (1, "type A = crate::A;") if lang == "C++" else (1, "type A;")):
            for form in ("&self", "&mut self", "self: &Self", "self: Pin<&mut Self>", "&'a self"):
                g = "<'a>" if "'a" in form else ""
                ok = n == 1 and (lang == "Rust" or form != "&mut self" or "=" in types)
                if g and lang == "Rust":
                    yield "%s safe method with %s and %d types in the block" % (lang, form, n), blk % (types + " fn f%s(%s);" % (g, form)), False
                    yield "%s method with %s and %d types in the block" % (lang, form, n), blk % (types + " unsafe fn f%s(%s);" % (g, form)), ok
                else:
                    yield "%s method with %s and %d types in the block" % (lang, form, n), blk % (types + " fn f%s(%s);" % (g, form)), ok
    # derives
    for d in ("Clone", "Copy", "Debug", "Default", "Eq", "ExternType", "Hash", "Ord", "PartialEq", "PartialOrd", "Serialize", "Deserialize", "Foo", "std::clone::Clone"):
        for kind, it in ITEM.items():
            std = d not in ("ExternType", "Foo", "std::clone::Clone")
            ok = {"struct": std, "enum": std and d != "Default", "Rust type": d == "ExternType"}.get(kind, False)
            yield "derive(%s) on %s" % (d, kind), it.replace("@", "#[derive(%s)]" % d), ok
    # repr
    for r in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "C", "transparent", "bool", "f32", "u128", "align(4)", "packed", "u8, C", "String", ""):
        for kind, it in ITEM.items():
            ok = kind == "enum" and r in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")
            yield "repr(%s) on %s" % (r, kind), it.replace("@", "#[repr(%s)]" % r), ok
    # other attributes
    named = ("struct", "enum", "C++ type", "alias", "Rust type", "C++ function", "Rust function", "struct field", "enum variant")
    ns = ("struct", "enum", "C++ type", "alias", "Rust type", "C++ function", "Rust function", "C++ block", "Rust block")
    for kind, it in ITEM.items():
        for a, ok in (("cxx_name = \"nn\"", kind in named), ("cxx_name = nn", kind in named), ("cxx_name", False), ("cxx_name = 5", False), ("cxx_name = \"a b\"", False), ("cxx_name = \"\"", False), ("cxx_name = \"operator++\"", False),
                      ("rust_name = \"nn\"", kind in named), ("rust_name = nn", kind in named), ("rust_name = \"a::b\"", False), ("rust_name", False),
                      ("namespace = \"a::b\"", kind in ns), ("namespace = a::b", kind in ns), ("namespace = \"\"", kind in ns), ("namespace = 5", False), ("namespace", False), ("namespace = \"a b\"", False),
                      ("doc = \"x\"", kind not in ("C++ block", "Rust block", "impl")), ("unknown", False), ("inline", False), ("cfg(all())", True), ("cfg(any())", kind not in ("struct field",)), ("cfg(not())", False), ("cfg(a, b)", False), ("cfg()", False), ("cfg(not(a, b))", False)):
            if kind in ("enum variant",) and a == "cfg(any())":
                continue  # leaves no variant
            yield "#[%s] on %s" % (a, kind), it.replace("@", "#[%s]" % a), ok
    # extern blocks
    for abi, lang in (('"C++"', "c"), ('"Rust"', "r"), ('"C"', ""), ("", ""), ('"c++"', ""), ('"Rust "', ""), ('"rust"', ""), ('"CXX"', "")):
        for uns in (False, True):
            for body, safe in (("fn f();", True), ("unsafe fn f();", False), ("type T;", False), ("type T; unsafe fn g(self: &T);", False), ("", False), ("unsafe fn f(); fn g();", True)):
                ok = lang == "c" and (uns or not safe) or lang == "r" and not uns
                yield "%sextern %s { %s }" % ("unsafe " if uns else "", abi, body), "%sextern %s { %s }" % ("unsafe " if uns else "", abi, body), ok
    for body in ("static X: i32;", "const X: i32;", "m!();", "fn f() {}", "include!(5);", "include!();", "include!(<a.h);", "include!(\"a.h\", \"b.h\");", "type T: Foo;", "struct X;", "type T = u8 + 1;", "fn f(...);", "fn f(a: i32, ...);",
                 "fn f<T>(x: &T);", "fn f<const N: usize>();", "fn f<'a: 'a>(x: &'a u8);", "fn f() where u8: Copy;", "async fn f();", "const fn f();", "extern \"C\" fn f();", "fn f((a, b): u8);", "fn f(&x: &u8);", "fn f(Foo { x }: u8);", "type T<X>;", "type T<const N: usize>;", "type T<'a: 'a>;"):
        for blk, l in ((U, "C++"), (R, "Rust")):
            yield "%s in an extern %s block" % (body, l), blk % body, False
    for body in ("fn f(_: u8);", "fn f(mut a: u8);", "fn f(a: u8,);", "fn f() -> ();", "fn f() -> Result<()>;", "pub fn f();", "pub(crate) fn f();", "pub type T;", "type T<'a>;", "type T<'a, 'b>;", "fn r#type();", "/// doc\nfn f();", "fn f(x: &'static str);"):
        for blk, l in ((U, "C++"), (R, "Rust")):
            yield "%s in an extern %s block" % (body, l), blk % body, True
    for body in ('include!("a.h");', "include!(<a.h>);", "include!(<a/b-c.h>);", "type T = crate::T;", "type T = ::a::b::T;", "type T = super::T;", "type T<'a> = crate::T<'a>;"):
        yield "%s in an extern C++ block" % body, U % body, True
    for body in ("type T = crate::T;",):
        yield "%s in an extern Rust block" % body, R % body, False
    # lifetimes
    for body, c, r, ru in (("fn f<'a>(x: &'a u8) -> &'a u8;", True, False, True), ("fn f<'a, 'b>(x: &'a u8, y: &'b u8) -> &'b u8;", True, False, True), ("fn f<'static>(x: &'static u8);", False, False, False)):
        yield "%s in an unsafe extern C++ block" % body, U % body, c
        yield "%s in an extern Rust block" % body, R % body, r
        yield "unsafe %s in an extern Rust block" % body, R % ("unsafe " + body), ru
        yield "unsafe %s in an extern C++ block that is not unsafe" % body, V % ("unsafe " + body), False
    # items
    for body, ok in (("struct T;", False), ("struct T {}", False), ("struct T(u8);", False), ("struct T { x: u8 }", True), ("pub struct T { pub x: u8 }", True), ("struct T<'a> { x: &'a u8 }", True), ("struct T<'a: 'a> { x: &'a u8 }", False), ("struct T<X> { x: u8 }", False),
                     ("struct T<const N: usize> { x: u8 }", False), ("struct T where u8: Copy { x: u8 }", False), ("struct T<'static> { x: u8 }", False), ("enum T {}", False), ("#[repr(u8)] enum T {}", True), ("enum T { A(u8) }", False), ("enum T { A { x: u8 } }", False),
                     ("enum T<'a> { A }", False), ("enum T<X> { A }", False), ("enum T where u8: Copy { A }", False), ("enum T { A = 1 + 1 }", False), ("enum T { A = X }", False), ("enum T { A = 'a' }", False), ("enum T { A = b'a' }", False), ("enum T { A = 5 }", True), ("enum T { A = -5 }", True), ("enum T { A = 5u8 }", True),
                     ("use a::b;", False), ("const X: u8 = 0;", False), ("static X: u8 = 0;", False), ("fn f() {}", False), ("mod m {}", False), ("type T = u8;", False), ("trait T {}", False), ("union T { x: u8 }", False), ("macro_rules! m {}", False), ("impl T {}", False), ("extern crate a;", False),
                     ("struct T { x: u8, x: u8 }", None), ("", True)):
        if ok is not None:
            yield body or "an empty bridge", body, ok
    # impls
    for kind, decl in KINDS.items():
        for c in ("Box", "Vec", "UniquePtr", "SharedPtr", "WeakPtr", "CxxVector", "Option", "Rc"):
            cxx = kind in ("opaque C++ type",)
            rust = kind == "opaque Rust type"
            if kind == "undeclared":
                ok = False
            else:
                ok = {"Box": not cxx, "Vec": not cxx, "UniquePtr": not rust, "SharedPtr": not rust, "WeakPtr": not rust, "CxxVector": not rust}.get(c, False)
            yield "impl %s<T> {} for %s" % (c, kind), decl + "\nimpl %s<T> {}" % c, ok
        yield "impl !UniquePtr<T> {} for %s" % kind, decl + "\nimpl !UniquePtr<T> {}", False
        yield "impl UniquePtr<T> with a body for %s" % kind, decl + "\nimpl UniquePtr<T> { fn f() {} }", False
        yield "impl Clone for UniquePtr<T> for %s" % kind, decl + "\nimpl Clone for UniquePtr<T> {}", False
        yield "impl<X> UniquePtr<T> for %s" % kind, decl + "\nimpl<X> UniquePtr<T> {}", False
        yield "impl &T for %s" % kind, decl + "\nimpl &T {}", False
        yield "impl T for %s" % kind, decl + "\nimpl T {}", False
        yield "impl UniquePtr<CxxVector<T>> for %s" % kind, decl + "\nimpl UniquePtr<CxxVector<T>> {}", False
    for t in ("u8", "bool", "String", "CxxString"):
        for c in ("Box", "Vec", "UniquePtr", "SharedPtr", "WeakPtr", "CxxVector"):
            yield "impl %s<%s>" % (c, t), "impl %s<%s> {}" % (c, t), False
    # names
    pos = {"struct": "struct @ { x: u8 }", "field": "struct T { @: u8 }", "enum": "enum @ { A }", "variant": "enum T { @ }", "C++ type": U % "type @;", "Rust type": R % "type @;", "alias": U % "type @ = crate::Q;",
           "C++ function": U % "fn @();", "Rust function": R % "fn @();", "C++ argument": U % "fn f(@: u8);", "Rust argument": R % "fn f(@: u8);",
           "cxx_name": U % "#[cxx_name = \"@\"]\nfn f();", "namespace": "#[namespace = \"@\"]\nstruct T { x: u8 }", "inner namespace": "#[namespace = \"a::@::b\"]\nstruct T { x: u8 }"}
    for p, s in pos.items():
        for n in NAMES:
            yield "the name %s as %s" % (n, p), s.replace("@", n), not (n.startswith("cxxbridge") or "__" in n)
    for n in NAMES:  # the Rust side allows double underscores
        yield "rust_name %s" % n, U % ("#[rust_name = \"%s\"]\nfn f();" % n), not n.startswith("cxxbridge")
        yield "%s with cxx_name" % n, U % ("#[cxx_name = \"f\"]\nfn %s();" % n), not n.startswith("cxxbridge")
    for n in RESERVED:
        for p in ("struct", "enum", "C++ type", "Rust type"):
            yield "the reserved name %s as %s" % (n, p), pos[p].replace("@", n), False
        for p in ("field", "variant", "C++ function", "Rust function", "C++ argument"):
            yield "the name %s as %s" % (n, p), pos[p].replace("@", n), True
    # the same name twice
    decl = {"struct": "struct T { x: u8 }", "enum": "enum T { A }", "C++ type": U % "type T;", "alias": U % "type T = crate::T;", "Rust type": R % "type T;", "C++ fn": U % "fn T();", "Rust fn": R % "fn T();", "C++ method": U % "type X;" + U % "fn T(self: &X);"}
    fns = ("C++ fn", "Rust fn", "C++ method")
    for a in decl:
        for b in decl:
            if a == b == "C++ method":
                yield "a method declared twice", U % "type X; fn T(self: &X); fn T(self: &X);", False
                yield "methods of two types with one name", U % "type X; type Y; fn T(self: &X); fn T(self: &Y);", True
                continue
            if a in fns or b in fns:
                ok = not (a in fns and b in fns) or (a == "C++ method") != (b == "C++ method")
            else:
                ok = {a, b} in ({"struct", "C++ type"}, {"enum", "C++ type"})
            yield "%s and %s of the same name" % (a, b), decl[a] + "\n" + decl[b], ok
    for u, trusted in ((U, True), (V, False)):
        yield "extern struct in a block that is%s unsafe" % ("" if trusted else " not"), "struct T { x: u8 }\n" + u % "type T;", trusted
        yield "extern enum in a block that is%s unsafe" % ("" if trusted else " not"), "enum T { A }\n" + u % "type T;", True
    yield "three declarations of one name", "struct T { x: u8 }\n" + U % "type T; type T;", False
    yield "functions with one C++ name", U % "#[cxx_name = \"f\"]\nfn g(x: u8);\n#[cxx_name = \"f\"]\nfn h(x: u16);", True
    # trivial use of opaque types
    for kind, decl in KINDS.items():
        for use, ok in ((U % "fn f(x: T);", kind not in ("opaque C++ type", "opaque Rust type")), (U % "fn f() -> T;", kind not in ("opaque C++ type", "opaque Rust type")), (R % "fn f(x: T);", kind not in ("opaque C++ type", "opaque Rust type")),
                        ("struct S { x: T }", kind not in ("opaque C++ type", "opaque Rust type")), (U % "fn f(x: &T);", True), (U % "fn f(x: &mut T);", kind != "opaque C++ type"), (U % "fn f(x: Pin<&mut T>);", True), (U % "fn f(x: &[T]);", kind != "opaque C++ type"),
                        (U % "fn f(x: Box<T>);", kind != "opaque C++ type"), (U % "fn f(x: Vec<T>);", kind != "opaque C++ type"), (U % "fn f(x: UniquePtr<T>);", kind != "opaque Rust type"), (U % "fn f(x: &CxxVector<T>);", kind != "opaque Rust type"), (U % "fn f(x: fn(T));", kind not in ("opaque C++ type", "opaque Rust type")), (U % "fn f(x: fn(T) -> T);", kind not in ("opaque C++ type", "opaque Rust type"))):
            yield "%s, T %s" % (use, kind), decl + "\n" + use, ok and kind != "undeclared"


# what stands around a bridge, and what does not count as one
def files():
    b = "mod ffi { struct T { x: u8 } }"
    for text, ok in (("#[cxx::bridge] " + b, True), ("#[cxx::bridge] pub " + b, True), ("#[cxx::bridge] pub(crate) " + b, True), ("#[cxx::bridge] unsafe " + b, True), (b, False), ("", False), ("#[bridge] " + b, False), ("#[cxx::foo] " + b, False),
                     ("#![allow(x)]\n#[cxx::bridge] " + b, True), ("mod a { mod b { #[cxx::bridge] %s } }" % b, True), ("mod a; #[cxx::bridge] " + b, True), ("#[cxx::bridge] " + b + " #[cxx::bridge] mod ffi2 { struct U { x: u8 } }", True),
                     ("#[cxx::bridge] struct T;", False), ("#[cxx::bridge] fn f() {}", False), ("#[cxx::bridge] mod ffi;", False), ("#[cxx::bridge(namespace = \"a::b\")] " + b, True), ("#[cxx::bridge(namespace = a::b)] " + b, True), ("#[cxx::bridge(namespace = a::b,)] " + b, True),
                     ("#[cxx::bridge()] " + b, True), ("#[cxx::bridge(foo)] " + b, False), ("#[cxx::bridge(namespace)] " + b, False), ("#[cxx::bridge(namespace = 5)] " + b, False), ("#[cxx::bridge(namespace = \"a b\")] " + b, False), ("#[cxx::bridge(namespace = \"a::\")] " + b, False),
                     ("#[cxx::bridge(namespace = \"a::cxxbridge\")] " + b, False), ("#[cxx::bridge(namespace = \"a__b\")] " + b, False), ("#[cxx::bridge] " + b + " fn main() { let x = [1; 2]; }", True), ("fn f() { mod ffi {} } #[cxx::bridge] " + b, True), ("#[cfg(all())] #[cxx::bridge] " + b, True), ("#[cxx::bridge] #[cfg(all())] " + b, True),
                     ("#[cxx::bridge] #[cfg(x y)] " + b, False), ("#[cxx::bridge] mod ffi { #![foo] }", True)):
        yield text, ok
