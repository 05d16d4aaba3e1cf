"""The type language of a bridge, the documented rules, and both spellings.

A type is a tuple: ("id", name) | ("unit",) | ("app", ctor, T) | ("ref", mut, pinned, T)
| ("ptr", mut, T) | ("slice", mut, T) | ("arr", n, T) | ("fn", unsafe, (T..), T|None, throws)
| ("raw", text)."""
PRIM = ["bool", "c_char", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64"]
NUM = [p for p in PRIM if p not in ("bool", "c_char")]
ATOM = PRIM + ["String", "CxxString"]
# shared struct, shared struct with a lifetime, shared enum, extern enum and struct,
# trivial alias, opaque C++ types, opaque Rust types
SHARED = ["St", "En", "XEn", "XSt"]
CXX = ["Cx"]
ALIAS = ["Al"]
RUST = ["Ro"]
USER = SHARED + CXX + ALIAS + RUST
UNK = ["str", "Undeclared", "char", "i128", "u128"]
CPP = dict(bool="bool", c_char="char", usize="std::size_t", isize="rust::isize", f32="float", f64="double",
           String="rust::String", CxxString="std::string", **{p: "std::%s_t" % p.replace("u", "uint").replace("i", "int").replace("uintnt", "uint") for p in NUM if p[1:].isdigit() and p[0] in "ui"})
for p in ("u8", "u16", "u32", "u64"):
    CPP[p] = "std::uint%s_t" % p[1:]
for p in ("i8", "i16", "i32", "i64"):
    CPP[p] = "std::int%s_t" % p[1:]
APP = dict(Box="rust::Box", Vec="rust::Vec", UniquePtr="std::unique_ptr", SharedPtr="std::shared_ptr", WeakPtr="std::weak_ptr", CxxVector="std::vector")


def rs(t, lt=""):
    """Rust spelling; `lt` is a lifetime to write on every reference."""
    k = t[0]
    l = lt + " " if lt else ""
    if k == "id":
        return t[1]
    if k == "raw":
        return t[1]
    if k == "unit":
        return "()"
    if k == "app":
        return "%s<%s>" % (t[1], rs(t[2], lt))
    if k == "ref":
        s = "&%s%s%s" % (l, "mut " if t[1] else "", rs(t[3], lt))
        return "Pin<%s>" % s if t[2] else s
    if k == "ptr":
        return "*%s %s" % ("mut" if t[1] else "const", rs(t[2], lt))
    if k == "slice":
        return "&%s%s[%s]" % (l, "mut " if t[1] else "", rs(t[2], lt))
    if k == "arr":
        return "[%s; %d]" % (rs(t[2], lt), t[1])
    if k == "fn":
        r = "" if t[3] is None else " -> " + ("Result<%s>" % rs(t[3]) if t[4] else rs(t[3]))
        return "%sfn(%s)%s" % ("unsafe " if t[1] else "", ", ".join(rs(a) for a in t[2]), r)
    raise AssertionError(t)


def cpp(t):
    k = t[0]
    if k == "id":
        return CPP.get(t[1], t[1])
    if k == "unit":
        return "void"
    if k == "app":
        return "%s<%s>" % (APP[t[1]], cpp(t[2]))
    if k == "ref":
        if t[3] == ("id", "str"):
            return "rust::Str"
        return "%s%s &" % (cpp(t[3]), "" if t[1] else " const")
    if k == "ptr":
        return "%s%s *" % (cpp(t[2]), "" if t[1] else " const")
    if k == "slice":
        return "rust::Slice<%s%s>" % (cpp(t[2]), "" if t[1] else " const")
    if k == "arr":
        return "std::array<%s, %d>" % (cpp(t[2]), t[1])
    if k == "fn":
        return "rust::Fn<%s(%s)>" % ("void" if t[3] is None else cpp(t[3]), ", ".join(cpp(a) for a in t[2]))
    raise AssertionError(t)


def is_str(t):
    return t[0] == "ref" and not t[1] and not t[2] and t[3] == ("id", "str")


def by_value(t):
    """May a value of this type be passed by value?"""
    k = t[0]
    if k == "id":
        return t[1] != "CxxString" and t[1] not in CXX + RUST
    if k == "arr":
        return by_value(t[2])
    return not (k in ("unit", "fn") or k == "app" and t[1] == "CxxVector")


def opaque_cxx(t):
    return t[0] == "id" and t[1] in CXX


def valid(t):
    """The documented rules that hold wherever the type is written."""
    k = t[0]
    if k == "raw":
        return False
    if k == "id":
        return t[1] in ATOM or t[1] in USER
    if k == "unit":
        return True
    if k == "app":
        c, x = t[1], t[2]
        n = x[1] if x[0] == "id" else None
        if is_str(x):
            return c == "Vec"
        if not valid(x):
            return False
        if c == "UniquePtr" and x[0] == "app" and x[1] == "CxxVector":
            return True
        if n is None:
            return False
        if c == "Box":
            return n in SHARED + ALIAS + RUST
        if c == "Vec":
            return n in PRIM + ["String"] + SHARED + ALIAS + RUST
        if c == "UniquePtr":
            return n == "CxxString" or n in SHARED + ALIAS + CXX
        if c in ("SharedPtr", "WeakPtr"):
            return n in NUM + ["bool", "CxxString"] + SHARED + ALIAS + CXX
        if c == "CxxVector":
            return n in NUM + ["CxxString"] + SHARED + ALIAS + CXX
        return False
    if k == "ref":
        _, mut, pin, x = t
        if x == ("id", "str"):
            return not mut and not pin
        if not valid(x):
            return False
        if mut and not pin and (x == ("id", "CxxString") or opaque_cxx(x) or x[0] == "app" and x[1] == "CxxVector"):
            return False
        if pin and (x == ("id", "String") or x[0] == "app" and x[1] == "Vec"):
            return False
        return not (x[0] in ("unit", "fn") or x[0] == "ref" and not is_str(x))
    if k == "ptr":
        x = t[2]
        if is_str(x):
            return True
        return valid(x) and not (x[0] in ("unit", "fn") or x[0] == "ref")
    if k == "slice":
        x = t[2]
        return valid(x) and (by_value(x) or x[0] == "id" and x[1] in RUST + ALIAS) and (x[0] != "ref" or is_str(x))
    if k == "arr":
        return t[1] > 0 and valid(t[2]) and by_value(t[2]) and (t[2][0] != "ref" or is_str(t[2]))
    if k == "fn":
        _, uns, args, ret, throws = t
        if throws:
            return False
        for a in args:
            if not valid(a) or a[0] == "ptr" and not uns or not by_value(a):
                return False
        return ret is None or ret[0] == "unit" or valid(ret) and by_value(ret)
    raise AssertionError(t)


def subtypes(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    yield from subtypes(y)
            elif x:
                yield from subtypes(x)


def has_mut_ref(t):
    return any(s[0] == "ref" and s[1] or s[0] == "slice" and s[1] for s in subtypes(t))


def arg_ok(t, lang, unsafe):
    if t[0] == "fn":
        return lang == "C++" and valid(t)
    return valid(t) and by_value(t) and (t[0] != "ptr" or unsafe)


def ret_ok(t, lang, unsafe, mut_arg):
    if t[0] == "unit":
        return True
    if not valid(t) or not by_value(t):
        return False
    if lang == "C++" and not unsafe and not mut_arg and (t[0] in ("ref", "slice") and t[1]):
        return False
    return True


def field_ok(t):
    return valid(t) and by_value(t)


CTORS = ([lambda t, c=c: ("app", c, t) for c in APP] +
         [lambda t, m=m, p=p: ("ref", m, p, t) for m in (False, True) for p in (False, True)] +
         [lambda t, m=m: ("ptr", m, t) for m in (False, True)] +
         [lambda t, m=m: ("slice", m, t) for m in (False, True)] +
         [lambda t, n=n: ("arr", n, t) for n in (2, 0)] +
         [lambda t: ("fn", False, (t,), None, False), lambda t: ("fn", True, (t,), None, False),
          lambda t: ("fn", False, (), t, False), lambda t: ("fn", False, (), t, True)])
BASE = [("id", n) for n in ATOM + USER + UNK] + [("unit",)]
RAW = ["Option<u8>", "(u8,)", "(u8, u8)", "[u8]", "dyn Tr", "impl Tr", "Self", "crate::St", "std::string::String", "cxx::UniquePtr<Cx>", "::St", "!", "_",
       "Result<u8>", "Box", "Vec", "UniquePtr", "Pin<u8>", "Pin<&str>", "Pin<Box<Ro>>", "Box<Ro, Ro>", "Vec<u8, u8>", "UniquePtr<>", "UniquePtr<Cx, Cx>", "HashMap<u8, u8>", "&dyn Tr", "[u8; N]", "[u8; 1 + 1]", "[u8; -1]",
       "[u8; 18446744073709551616]", "[u8; 'a']", "for<'a> fn(&'a u8)", "unsafe extern \"C\" fn(...)", "<St as Tr>::X", "m!()", "(u8)", "&'a mut str", "&mut str", "Vec<[u8]>", "Box<dyn Tr>", "Pin<&[u8]>", "*const [u8]", "*const dyn Tr", "&&mut u8", "Rc<u8>", "Arc<Cx>", "Cell<u8>", "*const str", "Box<str>"]


def enumerate_types(depth):
    lev = [list(BASE)]
    for _ in range(depth):
        lev.append([c(t) for c in CTORS for t in lev[-1]])
    return [t for l in lev for t in l]
