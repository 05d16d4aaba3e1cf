"""C18: generated C++ compiles on its own, in every standard, however it is included, and is the same every time."""
import itertools, os, re, shutil
import fsx, gk, vk
LEVEL = "exploration"
STDS = ["c++11", "c++14", "c++17", "c++20", "c++23"]
CCS = ["g++", "clang++"]

# ---------------------------------------------------------------- atoms
# declarations a type needs (%s: a suffix that makes names unique), as (Rust items, extern "Rust" items, extern "C++" items)
DECL = {
    "S": ("struct S%s { x: u8 }", "", ""),
    "St": ("struct St%s { s: String }", "", ""),
    "E": ("enum E%s { A, B }", "", ""),
    "R": ("", "type R%s;", ""),
    "C": ("", "", "type C%s;"),
    "A": ("", "", "type A%s = crate::a::A%s;"),
}
# type -> (Rust spelling, declarations)
TYPES = {}
for t in "bool u8 i16 u32 i64 usize isize f32 f64 c_char".split():
    TYPES[t] = (t, "")
for t in ("String", "&str", "&String", "&mut String", "&u8", "&mut isize", "*const u8", "*mut isize"):
    TYPES[t] = (t, "")
for d in DECL:
    TYPES[d] = (d + "%s", d)
for p in ("&", "&mut ", "*const ", "*mut "):
    for d in DECL:
        TYPES[p + d] = (p + d + "%s", d)
for d in ("C", "A", "R"):
    TYPES["Pin " + d] = ("Pin<&mut %s%%s>" % d, d)
TYPES["Pin CxxString"] = ("Pin<&mut CxxString>", "")
TYPES["&CxxString"] = ("&CxxString", "")
for e in ("u8", "isize", "String", "f64", "c_char", "&str", "S%s", "St%s", "E%s", "R%s", "A%s", "C%s"):
    d = e[:-2] if e.endswith("%s") else ""
    TYPES["Vec " + e] = ("Vec<%s>" % e, d)
    TYPES["&Vec " + e] = ("&Vec<%s>" % e, d)
    TYPES["&mut Vec " + e] = ("&mut Vec<%s>" % e, d)
    TYPES["&[] " + e] = ("&[%s]" % e, d)
    TYPES["&mut [] " + e] = ("&mut [%s]" % e, d)
    TYPES["[;] " + e] = ("[%s; 3]" % e, d)
for e in ("R%s", "S%s", "A%s"):
    TYPES["Box " + e] = ("Box<%s>" % e, e[:-2])
    TYPES["Vec Box " + e] = ("Vec<Box<%s>>" % e, e[:-2])
for e in ("C%s", "A%s", "S%s", "CxxString", "CxxVector<u8>", "CxxVector<isize>", "CxxVector<CxxString>", "CxxVector<C%s>", "CxxVector<S%s>", "CxxVector<String>", "u8"):
    m = re.search(r"(\w+)%s", e)
    d = m.group(1) if m else ""
    for w in ("UniquePtr", "SharedPtr", "WeakPtr"):
        TYPES["%s %s" % (w, e)] = ("%s<%s>" % (w, e), d)
    if "CxxVector" in e:
        TYPES["&" + e] = ("&" + e, d)
        TYPES["Pin " + e] = ("Pin<&mut %s>" % e, d)
for e in ("fn()", "fn(u8) -> u8", "fn(&str) -> String", "fn(S%s) -> UniquePtr<C%s>", "fn(Box<R%s>)", "fn(String)", "fn(isize) -> St%s", "fn(UniquePtr<CxxString>) -> Vec<u8>"):
    TYPES[e] = (e, "".join(d + " " for d in DECL if re.search(r"\b%s%%s" % d, e)).strip())
POS = {
    "Rust argument": ('extern "Rust"', "fn f%s(%sx: {T});", False),
    "Rust return": ('extern "Rust"', "fn f%s() -> {T};", True),
    "Rust result": ('extern "Rust"', "fn f%s() -> Result<{T}>;", True),
    "Rust method": ('extern "Rust"', "type Q%s; fn f%s(self: &Q%s, x: {T});", False),
    "C++ argument": ('unsafe extern "C++"', "fn f%s(x: {T});", False),
    "C++ return": ('unsafe extern "C++"', "fn f%s() -> {T};", True),
    "C++ result": ('unsafe extern "C++"', "fn f%s() -> Result<{T}>;", True),
    "C++ method": ('unsafe extern "C++"', "type Q%s; fn f%s(self: &Q%s, x: {T});", False),
    "field": (None, "struct F%s { x: {T}, y: u8 }", False),
    "only field": (None, "struct F%s { x: {T} }", False),
}


def sub(t, i):
    return t.replace("%s", str(i))


def fill(d, i):
    """(Rust items, extern Rust items, extern C++ items) of the declarations named in d."""
    out = [[], [], []]
    for n in d.split():
        for k in range(3):
            if DECL[n][k]:
                out[k].append(sub(DECL[n][k], i))
    return out


def typed_atoms():
    """name -> f(i) -> (items, rust items, cxx items)"""
    out = {}
    for tn, (t, d) in TYPES.items():
        for pn, (blk, tpl, ret) in POS.items():
            def make(i, t=t, d=d, blk=blk, tpl=tpl, ret=ret):
                o = fill(d, i)
                ty = sub(t, i)
                s = tpl.replace("%sx", "x").replace("{T}", ty).replace("%s", str(i))
                if ret and "&" in ty.split("(")[0] or ret and ty.startswith("Pin"):
                    # something to borrow from
                    s = s.replace("()", "(a: %s)" % ("Pin<&mut CxxString>" if "&mut" in ty else "&CxxString"), 1)
                    if "fn f" in s and blk and '"C++"' in blk:
                        pass
                if "*" in ty.split("(")[0] and blk:
                    s = s.replace("fn f", "unsafe fn f")
                if blk is None:
                    if "&" in ty.split("(")[0]:
                        s = s.replace(" {", "<'a> {", 1).replace("&", "&'a ")
                    o[0].append(s)
                else:
                    o[1 if "Rust" in blk else 2].append(s)
                return o
            out["%s of %s" % (pn, tn)] = make
    return out


def item_atoms():
    out = {}

    def add(name, items="", rust="", cxx=""):
        out[name] = lambda i, a=(items, rust, cxx): [[sub(x, i)] if x else [] for x in a]
    add("nothing")
    for dv in ("Clone", "Copy, Clone", "Debug", "Default", "PartialEq", "PartialEq, Eq", "PartialEq, PartialOrd", "PartialEq, Eq, PartialOrd, Ord", "Hash", "PartialEq, Eq, Hash", "Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash"):
        add("struct with " + dv, "#[derive(%s)] struct D%%s { a: u8, b: u16 }" % dv)
        if "Copy" not in dv:
            add("struct of a string with " + dv, "#[derive(%s)] struct D%%s { a: String, b: isize }" % dv)
    for dv in ("Hash", "PartialOrd", "Hash, Debug"):
        add("enum with " + dv, "#[derive(%s)] enum D%%s { A, B = 5 }" % dv)
    add("extern enum", "#[repr(u8)] enum X%s { A = 0, B = 1 }", "", "type X%s;")
    add("extern struct", "struct X%s { x: u8 }", "", "type X%s;")
    add("namespaced", '#[namespace = "a::b"] struct N%s { x: u8 }', '#[namespace = "a::c"] type M%s; #[namespace = "a::b"] fn n%s(x: &N%s);')
    add("opaque Rust type", "", "type O%s;")
    add("Rust methods", "", "type O%s; fn m%s(self: &O%s); fn n%s(self: &mut O%s, x: u8) -> u8;")
    add("struct with methods", "struct W%s { x: u8 }", "fn m%s(self: &W%s); fn n%s(self: &mut W%s) -> String;")
    add("struct with C++ methods", "struct W%s { x: u8 }", "", "fn m%s(self: &W%s) -> u8; fn n%s(self: &mut W%s);")
    add("C++ methods", "", "", "type Y%s; fn s%s(self: &Y%s) -> usize; fn p%s(self: Pin<&mut Y%s>) -> Result<()>;")
    for w in ("Box", "Vec"):
        add("impl %s of Rust" % w, "impl %s<O%%s> {}" % w, "type O%s;")
        add("impl %s of struct" % w, "struct S%%s { x: u8 } impl %s<S%%s> {}" % w)
        add("impl %s of alias" % w, "impl %s<A%%s> {}" % w, "", "type A%s = crate::a::A%s;")
    for w in ("UniquePtr", "SharedPtr", "WeakPtr", "CxxVector"):
        add("impl %s of C++" % w, "impl %s<C%%s> {}" % w, "", "type C%s;")
        add("impl %s of struct" % w, "struct S%%s { x: u8 } impl %s<S%%s> {}" % w)
        add("impl %s of alias" % w, "impl %s<A%%s> {}" % w, "", "type A%s = crate::a::A%s;")
    add("impl Vec of enum", "enum E%s { A } impl Vec<E%s> {}")
    add("impl CxxVector of enum", "enum E%s { A } impl CxxVector<E%s> {}")
    add("no result", "", "fn f%s() -> Result<()>; fn g%s();")
    add("C++ no result", "", "", "fn f%s() -> Result<()>; fn g%s();")
    # order of declarations
    add("struct before its field's", "struct X%s { y: Y%s, z: Z%s } struct Y%s { z: Z%s } enum Z%s { A }")
    add("struct of everything", "struct X%s { a: String, b: Vec<String>, c: Box<O%s>, d: UniquePtr<C%s>, e: SharedPtr<C%s>, f: [u8; 4], g: isize, h: WeakPtr<C%s>, i: Vec<O%s>, j: f64, k: c_char, l: bool }", "type O%s;", "type C%s;")
    add("trailing comma result", "", "fn f%s(a: &str, b: &[u8], c: String, d: Vec<u8>,) -> Result<String>;")
    add("indirect everything", "", "fn f%s(a: String, b: UniquePtr<CxxString>, c: SharedPtr<C%s>) -> UniquePtr<CxxVector<CxxString>>;", "type C%s;")
    for kind, q in (("///", 0), ("doc attribute", 1)):
        for nm, text in (("plain", "Hello"), ("backslash", "path C:\\"), ("backslash and space", "x \\ "), ("trigraph", "what??/"), ("comment end", "a */ b"), ("comment start", "/* a"), ("empty", ""), ("quotes", 'a "b" \'c'), ("directive", "#include <x>"), ("raw", 'R"(a'), ("unicode", "äß\\u{1F600}"), ("two lines", "a\\\nb\\")):
            if q:
                docs = "#[doc = %s]" % ('"%s"' % text.replace("\\u", "\x00").replace("\\", "\\\\").replace("\x00", "\\u").replace('"', '\\"').replace("\n", "\\n"))
            else:
                docs = "\n" + "".join("/// %s\n" % l for l in text.replace("\\u{1F600}", "\U0001F600").split("\n"))
            add("documentation %s %s" % (kind, nm), "%s struct D%%s { %s x: u8, %s y: u16 } %s enum G%%s { %s A, %s B }" % ((docs,) * 6), "%s type O%%s; %s fn m%%s(self: &O%%s); %s fn d%%s() -> u8; %s fn e%%s() -> Result<u16>;" % ((docs,) * 4), "%s type K%%s; %s fn k%%s();" % (docs, docs))
    return out


USER = '''#ifndef USER_H
#define USER_H
// no types of the standard library or of cxx are known here
%s
#endif
'''


def bridge(parts, includes=()):
    """One bridge of several atoms; the C++ side declares what it needs in a header without any other."""
    items, rust, cxx = [], [], []
    for p in parts:
        items += p[0]
        rust += p[1]
        cxx += p[2]
    # the same declaration of two atoms
    cx = list(dict.fromkeys(cxx))
    inc = "".join('include!("%s");' % i for i in includes)
    s = "#[cxx::bridge]\nmod ffi {\n%s\n" % "\n".join(items)
    if rust:
        s += 'extern "Rust" { %s }\n' % "\n".join(rust)
    if cx or inc:
        s += 'unsafe extern "C++" { %s %s }\n' % (inc, "\n".join(cx))
    return s + "}\n"


def user_header(src):
    """What the user has to declare, without naming a type."""
    out = []
    m = re.search(r'unsafe extern "C\+\+" \{(.*?)\n?\}\n', src, re.S)
    body = m.group(1) if m else ""
    body = re.sub(r'#\[doc = "(?:[^"\\]|\\.)*"\]', "", body)
    body = "\n".join(l for l in body.split("\n") if not l.strip().startswith("///"))
    methods = {}
    for mm in re.finditer(r'(?:#\[Self = "(\w+)"\] )?(?:unsafe )?fn (\w+)\((&self|self: [^,)]*)?', body):
        st, nm, recv = mm.groups()
        tpl = "template <class R, class... A> %sR %s(A...)%s { __builtin_trap(); }"
        if st:
            methods.setdefault(st, []).append(tpl % ("static ", nm, ""))
        elif recv:
            t = re.search(r"(\w+)>?$", recv).group(1) if recv != "&self" else re.findall(r"type (\w+)", body[:mm.start()])[-1]
            methods.setdefault(t, []).append(tpl % ("", nm, "" if "&mut" in recv else " const"))
        else:
            out.append(tpl % ("", nm, ""))
    shared = set(re.findall(r"(?:struct|enum) (\w+)", src))
    for t in dict.fromkeys(re.findall(r"type (\w+)", body)):
        if t in shared:
            if re.search(r"enum %s\b" % t, src):
                out.insert(0, "enum class %s : unsigned char { A = 0, B = 1 };" % t)
            else:
                out.insert(0, "struct %s { unsigned char x; };" % t)
            continue
        triv = re.search(r"type %s = " % t, body)
        out.insert(0, "struct %s { int v; %s %s };" % (t, "" if triv else "%s() noexcept; %s(const %s &) noexcept; ~%s();" % (t, t, t, t), " ".join(methods.get(t, []))))
    return USER % "\n".join(out)


# what the header has to be enough for: with the types it names
USE = [
    (r"\b(rust::String)\b", 'inline void use_String() {{ rust::String s("a"), t(s), u(static_cast<rust::String &&>(s)); s = t; s = "b"; (void)s.size(); (void)s.c_str(); std::string x(s); }}'),
    (r"\b(rust::Str)\b", 'inline void use_Str() {{ rust::Str s("a"), t(s); s = t; (void)s.size(); (void)s.data(); std::string x(s); }}'),
    (r"\brust::Vec<([\w:]+)>", 'inline void use_Vec(const ::rust::Vec<{0}> &v, ::rust::Vec<{0}> &w) {{ ::rust::Vec<{0}> n; (void)n.empty(); n = static_cast<::rust::Vec<{0}> &&>(w); (void)v.size(); (void)v.data(); for (auto &&e : v) (void)e; (void)v.at(0); w.clear(); w.reserve(3); }}'),
    (r"\brust::Box<([\w:]+)>", 'inline void use_Box(::rust::Box<{0}> &b, ::rust::Box<{0}> &c) {{ b = static_cast<::rust::Box<{0}> &&>(c); (void)*b; ::rust::Box<{0}> d = ::rust::Box<{0}>::from_raw(b.into_raw()); }}'),
    (r"\brust::Slice<([\w:]+(?: const)?)>", 'inline void use_Slice(::rust::Slice<{0}> s) {{ ::rust::Slice<{0}> t(s); t = s; (void)s.size(); (void)s.empty(); (void)s.data(); for (auto &&e : s) (void)e; (void)s[0]; }}'),
    (r"\bstruct (F\d+) final", 'inline void use_F({0} &a, {0} &b) {{ {0} c(static_cast<{0} &&>(a)); b = static_cast<{0} &&>(c); }}'),
    (r"\bstruct (D\d+) final[^}}]*?operator==", 'inline bool use_eq(const {0} &a, const {0} &b) {{ return a == b && !(a != b); }}'),
    (r"\bstruct (D\d+) final[^}}]*?operator<", 'inline bool use_lt(const {0} &a, const {0} &b) {{ return a < b && !(a > b) && a <= b && !(a >= b); }}'),
    (r"\bstruct hash<::(D\d+)>", 'inline std::size_t use_hash(const {0} &a) {{ return std::hash<{0}>()(a); }}'),
]


def uses(header):
    # the bridge's own text, not the builtins
    own = header[header.rfind("} // namespace rust\n"):] if "} // namespace rust\n" in header else header
    out = []
    for rx, text in USE:
        for t in dict.fromkeys(re.findall(rx, own)):
            if rx.startswith(r"\bstruct (F") and re.search(r"struct %s final \{[^}]*&" % t, own):
                continue   # references cannot be assigned
            if re.search(r"\b[KQ]\d+\b", t):
                continue
            out.append(text.format(t))
    return "\n".join(out) + "\n"


def run(ck):
    g = gk.Gen(ck)
    atoms = {**typed_atoms(), **item_atoms()}
    names = list(atoms)
    single = [bridge([atoms[n](1)], ["user.h"] if atoms[n](1)[2] else []) for n in names]
    res = g.batch(single)
    ok = [k for k, r in enumerate(res) if r.ok]
    for k, r in enumerate(res):
        if r.st > 1:
            ck.violation("%s: %s" % (names[k], gk.STATUS[r.st]), single[k])
    must = [n for n in item_atoms()]
    for k, r in enumerate(res):
        if names[k] in must and not r.ok:
            ck.violation("%s is refused: %s" % (names[k], r.err[:300]), single[k], key="refused:" + names[k].replace(" ", "_"))
    ck.log("%d of %d bridges accepted" % (len(ok), len(names)))
    if len(ok) < len(names) // 3:
        ck.violation("only %d of %d bridges are accepted" % (len(ok), len(names)))
    # ---- the same every time: in other processes, with other things before
    again = ck.pick(2, 6)
    everything = []
    for a in range(again):
        order = list(range(len(single)))
        if a % 2 == 0:
            order.reverse()
        r2 = g.batch([single[k] for k in order])
        for j, k in enumerate(order):
            if (r2[j].st, r2[j].header, r2[j].cc) != (res[k].st, res[k].header, res[k].cc):
                ck.violation("%s: generated twice, the output differs" % names[k], "%s\n%s\n----\n%s" % (single[k], res[k].header + res[k].cc, r2[j].header + r2[j].cc))
                break
    # ---- a comment is only a comment
    docs = [k for k in ok if names[k].startswith("documentation")]
    plain = g.batch([re.sub(r'#\[doc = "(?:[^"\\]|\\.)*"\]', "", re.sub(r"(?m)^ ?///.*$", "", single[k])) for k in docs])
    comments(ck, g, [(names[k], what, text, want, single[k]) for k, p in zip(docs, plain) for what, text, want in (("header", res[k].header, p.header), ("source", res[k].cc, p.cc))])
    # ---- compile
    jobs = []   # (path, cc, std, args, name, what)
    W = os.path.join(ck.work, "c18")
    for k in ok:
        d = os.path.join(W, str(k))
        gk.write(os.path.join(d, "user.h"), user_header(single[k]))
        gk.write(os.path.join(d, "b.rs.h"), res[k].header)
        gk.write(os.path.join(d, "b.cc"), res[k].cc)
        # with the runtime header, before or after what the user has
        gk.write(os.path.join(d, "twice.cc"), '#include "b.rs.h"\n#include "b.rs.h"\n' + uses(res[k].header))
        gk.write(os.path.join(d, "before.cc"), '#include "rust/cxx.h"\n#include "b.rs.h"\n#include "rust/cxx.h"\n')
        gk.write(os.path.join(d, "after.cc"), '#include "b.rs.h"\n#include "rust/cxx.h"\n#include "b.rs.h"\n')
        gk.write(os.path.join(d, "source.cc"), '#include "rust/cxx.h"\n#include "b.cc"\n')
        gk.write(os.path.join(d, "both.cc"), '#include "b.rs.h"\n#include "b.cc"\n')
    combos = [(c, s) for c in CCS for s in STDS]
    files = ["twice.cc", "b.cc", "before.cc", "after.cc", "source.cc", "both.cc"]
    for j, k in enumerate(ok):
        head, src = ["twice.cc", "before.cc", "twice.cc", "after.cc"], ["b.cc", "source.cc", "b.cc", "both.cc"]
        if ck.quick:
            # headers and sources in turn; all of them are in together() as well
            want = [(head[j // 2 % 4],) + combos[j // 2 % 10]] if j % 2 else [(src[j // 2 % 4],) + combos[(j // 2 + 3) % 10]]
            if names[k] in must:
                want += [("twice.cc", "g++", "c++11"), ("twice.cc", "clang++", "c++20"), ("b.cc", "g++", "c++14"), ("b.cc", "clang++", "c++11")]
        else:
            want = [(f,) + c for n, f in enumerate(files) for c in combos if n < 2 and (c[1] in ("c++11", "c++17", "c++23")) or combos[(j + n) % 10] == c]
        for f, cc, std in dict.fromkeys(want):
            jobs.append((os.path.join(W, str(k), f), cc, std, names[k], k))
    # ---- the bridge includes the runtime header itself, or the caller of the generator does
    pick = [(j, k) for j, k in enumerate(ok) if names[k] in must or j % ck.pick(3, 1) == 0]
    own = []
    for j, k in pick:
        u = ["user.h"] if atoms[names[k]](1)[2] else []
        if j % 4 == 3:
            own.append((bridge([atoms[names[k]](1)], u), "", "", '"rust/cxx.h"'))
        else:
            own.append((bridge([atoms[names[k]](1)], [["rust/cxx.h"] + u, u + ["rust/cxx.h"]][j % 2]), "", "", ""))
    r3 = g.batch(own)
    for (j, k), o, r in zip(pick, own, r3):
        if not r.ok:
            ck.violation("%s with rust/cxx.h among its includes: %s" % (names[k], gk.STATUS[r.st]), "%s\n%s" % (o[0], r.err))
            continue
        d = os.path.join(W, "own%d" % k)
        gk.write(os.path.join(d, "user.h"), user_header(o[0]))
        gk.write(os.path.join(d, "b.rs.h"), r.header)
        gk.write(os.path.join(d, "b.cc"), r.cc)
        gk.write(os.path.join(d, "twice.cc"), '#include "b.rs.h"\n#include "b.rs.h"\n' + uses(r.header))
        for f in ["twice.cc", "b.cc"] if not ck.quick else [["twice.cc", "b.cc"][(j // 3) % 2 if names[k] not in must else j % 2]]:
            c = combos[(j + (f == "b.cc")) % len(combos)]
            jobs.append((os.path.join(d, f),) + c + ("with rust/cxx.h, " + names[k], k))
    compile_all(ck, g, jobs, res, single)
    n = together(ck, g, atoms, [names[k] for k in ok])
    if not ck.quick:
        n += pairs(ck, g, atoms, [(names[k], res[k]) for k in ok])
    ck.count("evaluations", n)
    doxygen(ck, g, [(names[k], single[k], p) for k, p in zip(docs, plain)])
    shutil.rmtree(W, ignore_errors=True)
    ck.count("evaluations", len(jobs) + len(names) * again)
    ck.count("distinct_nontrivial", len(ok))
    ck.cov["rule"] = "distinct accepted bridges, each with its own declarations"
    for k in ok[::max(1, len(ok) // 6)]:
        ck.sample(names[k])


def tokens(ck, g, path, cc, std):
    rc, so, se = vk.run([cc, "-std=" + std, "-E", "-P", "-w", "-x", "c++", path])
    return " ".join(so.split()) if rc == 0 else "fails: " + se[-300:]


def bare(text):
    """Without #include lines: only the bridge's own text is compared."""
    return re.sub(r"(?m)^#include .*$", "", text)


def comments(ck, g, todo):
    """Documentation changes nothing but comments."""
    W = os.path.join(ck.work, "doc")
    combos = [("g++", "c++11"), ("clang++", "c++17"), ("g++", "c++20")]

    def one(a):
        n, (name, what, text, want, k) = a
        for cc, std in combos:
            x = tokens(ck, g, gk.write(os.path.join(W, "%d.a.h" % n), bare(text)), cc, std)
            y = tokens(ck, g, gk.write(os.path.join(W, "%d.b.h" % n), bare(want)), cc, std)
            if x != y:
                return name, what, cc, std, text, want, k
    with vk.pool() as p:
        for b in p.map(one, list(enumerate(todo))):
            if b:
                name, what, cc, std, text, want, k = b
                ck.violation("%s changes the code of the %s (%s %s)" % (name, what, cc, std), "%s\n%s\n---- without documentation\n%s" % (k, text, want), key="doc:" + name.replace(" ", "_"))
    ck.log("%d files with documentation" % len(todo))


def compile_all(ck, g, jobs, res, single):
    def one(j):
        path, cc, std, name, k = j
        return j, g.cxx(path, ["-fsyntax-only", "-w"], cc, std)
    bad = {}
    with vk.pool() as p:
        for j, (rc, errs, se) in p.map(one, jobs):
            if rc:
                bad.setdefault(j[3], []).append((j, errs, se))
    for name, l in bad.items():
        j, errs, se = l[0]
        msg = errs[0][2] if errs else se[-200:]
        ck.violation("%s: %s %s %s: %s" % (name, os.path.basename(j[0]), j[1], j[2], msg), "%s\n%s\n%s\n----\n%s\n----\n%s" % (single[j[4]], "\n".join("%s %s %s" % (os.path.basename(x[0][0]), x[0][1], x[0][2]) for x in l), se[:3000], res[j[4]].header, res[j[4]].cc), key="%s:%s" % (os.path.basename(j[0]), name.replace(" ", "_")))
    ck.log("%d compilations" % len(jobs))


def together(ck, g, atoms, names):
    """Many atoms in one bridge; its header in two translation units, linked with its source; all headers in one file."""
    W = os.path.join(ck.work, "tog")
    size = 90
    chunks = [names[i::(len(names) + size - 1) // size] for i in range((len(names) + size - 1) // size)]
    parts, srcs = [], []
    for c, ch in enumerate(chunks):
        parts.append([atoms[n](1000 * c + j) for j, n in enumerate(ch)])
        srcs.append(bridge(parts[-1], ["user.h"]))
    res, first = g.batch(srcs), g.batch(srcs)
    vk.run(["g++", "-std=c++11", "-w", "-c", "/repo/src/cxx.cc", "-I", "/repo/include", "-o", os.path.join(ck.work, "cxx.o")])

    def one(c):
        bad = []
        r, r0 = res[c], first[c]
        if not r.ok:
            return ["%d bridges are accepted one by one but not together: %s" % (len(chunks[c]), r.err[:300])]
        if (r.header, r.cc) != (r0.header, r0.cc):
            bad.append("generated twice, the output differs")
        d = os.path.join(W, str(c))
        u = user_header(srcs[c])
        gk.write(os.path.join(d, "user.h"), u)
        gk.write(os.path.join(d, "b.rs.h"), r.header)
        gk.write(os.path.join(d, "b.cc"), r.cc)
        for k in (1, 2):
            gk.write(os.path.join(d, "t%d.cc" % k), '#include "b.rs.h"\n' + uses(r.header) + "void (*volatile keep%d[])() = {%s};\n" % (k, "0"))
        objs = []
        for n, f in enumerate(("t1", "t2", "b")):
            # keep what the inline functions use
            rc, errs, se = g.cxx(os.path.join(d, f + ".cc"), ["-c", "-w", "-fkeep-inline-functions" if f == "t1" else "-O0", "-o", os.path.join(d, f + ".o")], "g++", STDS[(c + n) % 5])
            objs.append(os.path.join(d, f + ".o"))
            if rc:
                bad.append("together: %s.cc does not compile: %s" % (f, errs[0][2] if errs else se[-200:]))
        if not bad:
            main = gk.write(os.path.join(d, "m.cc"), "int main() {}\n")
            rc, so, se = vk.run(["g++", main] + objs + [os.path.join(ck.work, "cxx.o"), "-Wl,--warn-unresolved-symbols", "-o", os.path.join(d, "x")])
            dup = re.findall(r"multiple definition of `(.*?)'", se)
            und = [x for x in re.findall(r"undefined reference to `(.*?)'", se) if "cxxbridge1$" not in x]
            und = [x for x in und if not re.match(r"(C|Y|Q|K|A|W)\d+::~?\1?\d*", x)]
            # an alias's containers are in the bridge that has the type
            und = [x for x in und if not re.search(r"<A\d+>", x)]
            if dup:
                bad.append("%s is defined twice when two files include the header" % dup[0])
            if und:
                bad.append("%s is not defined" % und[0])
            if rc and not dup and not und:
                bad.append("does not link: " + se[-300:])
        return bad
    with vk.pool() as p:
        for c, bad in enumerate(p.map(one, range(len(chunks)))):
            for b in bad[:1]:
                ck.violation(b, srcs[c] + "\n----\n" + res[c].header + res[c].cc)
    # all headers in one file, in both orders
    hs = [os.path.join(W, str(c), "b.rs.h") for c in range(len(chunks)) if res[c].ok]
    us = [os.path.join(W, str(c), "user.h") for c in range(len(chunks)) if res[c].ok]
    for u in us:
        with open(u) as f:
            t = f.read().replace("USER_H", "USER_H_" + u.split("/")[-2])
        gk.write(u, t)
    for n, (l, cc, std) in enumerate(((hs, "g++", "c++11"), (hs[::-1], "clang++", "c++20"))):
        f = gk.write(os.path.join(W, "all%d.cc" % n), "".join('#include "%s"\n' % h for h in l))
        rc, errs, se = g.cxx(f, ["-fsyntax-only", "-w"], cc, std)
        if rc:
            ck.violation("the headers of %d bridges cannot be included in one file: %s" % (len(l), errs[0][2] if errs else se[-200:]), se[:3000])
    ck.log("%d bridges of up to %d atoms" % (len(chunks), size))
    return 3 * len(chunks) + 2


def features(text):
    """Which of the runtime's parts and standard headers the output has."""
    return frozenset(re.findall(r"^#(?:ifndef (CXXBRIDGE1_[A-Z_]+)|include (<\w+>))$", text, re.M))


def pairs(ck, g, atoms, acc):
    """Every pair of bridges that need different parts of the runtime: those of the header, then those of the source."""
    W = os.path.join(ck.work, "pairs")
    combos = [(c, s) for c in CCS for s in STDS]
    n = 0
    for which in ("header", "cc"):
        reps = {}
        for name, r in acc:
            reps.setdefault(features(getattr(r, which)), name)
        allp = list(itertools.combinations(reps.values(), 2))
        srcs = [bridge([atoms[a](1), atoms[b](2)], ["user.h"]) for a, b in allp]
        res = g.batch(srcs)

        def one(j):
            r = res[j]
            if not r.ok:
                return j, "refused together: " + r.err[:200]
            d = os.path.join(W, str(j))
            gk.write(os.path.join(d, "user.h"), user_header(srcs[j]))
            f = gk.write(os.path.join(d, "b.cc"), r.cc if which == "cc" else r.header + uses(r.header))
            cc, std = combos[j % 10]
            rc, errs, se = g.cxx(f, ["-fsyntax-only", "-w"], cc, std)
            shutil.rmtree(d)
            return j, ("%s %s: %s" % (cc, std, errs[0][2] if errs else se[-200:]) if rc else None)
        with vk.pool() as p:
            for j, bad in p.map(one, range(len(srcs))):
                if bad:
                    ck.violation("%s with %s: %s: %s" % (allp[j] + ("header" if which == "header" else "source", bad)), srcs[j] + "\n----\n" + res[j].header + "\n----\n" + res[j].cc)
        ck.log("%d pairs of %d by %s" % (len(srcs), len(reps), which))
        n += len(srcs)
    return n


def doxygen(ck, g, docs):
    """The same with CFG.doxygen, which only build scripts have."""
    base = fsx.prepare(ck)
    todo = []
    try:
        def one(a):
            n, (name, src, plain) = a
            h = os.path.join(base, str(n))
            os.makedirs(os.path.join(h, "src"))
            os.makedirs(os.path.join(h, "target/out"))
            open(os.path.join(h, "target/CACHEDIR.TAG"), "w").close()
            with open(os.path.join(h, "src/lib.rs"), "w") as f:
                f.write(src)
            rc, so, se = vk.run([os.path.join(base, "fe"), "noargs", "doxygen=1", "bridge=src/lib.rs"], cwd=h, env=fsx.clean_env(CARGO_MANIFEST_DIR=h, OUT_DIR=h + "/target/out", CARGO_PKG_NAME="p"))
            if rc:
                return name, "fails with doxygen: " + se[-300:], None, plain, src
            with open(os.path.join(h, "target/out/cxxbridge/include/p/src/lib.rs.h")) as f:
                return name + " with doxygen", "header", f.read(), plain.header, src
        with vk.pool() as p:
            for x in p.map(one, list(enumerate(docs))):
                if x[2] is None:
                    ck.violation("%s %s" % x[:2], x[4])
                else:
                    todo.append(x)
        comments(ck, g, todo)
        for x in todo:
            if "plain" in x[0] and "///" not in x[2]:
                ck.violation("%s: no documentation in the header" % x[0], x[2])
    finally:
        shutil.rmtree(base, ignore_errors=True)
