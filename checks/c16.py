"""C16: C++ that disagrees with the bridge does not compile; extern types are checked by name and kind."""
import itertools, os, re, shutil
import gk, vk
LEVEL = "exploration"

# Rust type -> the C++ type that the documentation gives for it
TYPES = {
    "bool": "bool", "u8": "std::uint8_t", "i8": "std::int8_t", "u16": "std::uint16_t", "i16": "std::int16_t", "u32": "std::uint32_t", "i32": "std::int32_t",
    "u64": "std::uint64_t", "i64": "std::int64_t", "usize": "std::size_t", "isize": "rust::isize", "f32": "float", "f64": "double", "c_char": "char",
    "String": "rust::String", "&str": "rust::Str", "&String": "const rust::String &", "&mut String": "rust::String &",
    "&CxxString": "const std::string &", "Pin<&mut CxxString>": "std::string &",
    "&u8": "const std::uint8_t &", "&mut u8": "std::uint8_t &", "*const u8": "const std::uint8_t *", "*mut u8": "std::uint8_t *",
    "*const *mut u8": "std::uint8_t *const *", "*mut *const u8": "const std::uint8_t **", "*const *const u8": "const std::uint8_t *const *",
    "&C": "const C &", "Pin<&mut C>": "C &", "*const C": "const C *", "*mut C": "C *",
    "&D": "const D &", "Pin<&mut D>": "D &",
    "&R": "const R &", "&mut R": "R &", "*mut R": "R *",
    "S": "S", "&S": "const S &", "&mut S": "S &", "T": "T", "E": "E", "&E": "const E &", "&mut E": "E &",
    "A": "A", "&A": "const A &", "Pin<&mut A>": "A &",
    "Box<R>": "rust::Box<R>", "Box<S>": "rust::Box<S>", "Vec<u8>": "rust::Vec<std::uint8_t>", "Vec<i8>": "rust::Vec<std::int8_t>", "Vec<String>": "rust::Vec<rust::String>", "Vec<S>": "rust::Vec<S>",
    "&Vec<u8>": "const rust::Vec<std::uint8_t> &", "&mut Vec<u8>": "rust::Vec<std::uint8_t> &",
    "&[u8]": "rust::Slice<const std::uint8_t>", "&mut [u8]": "rust::Slice<std::uint8_t>", "&[S]": "rust::Slice<const S>", "&[String]": "rust::Slice<const rust::String>",
    "[u8; 3]": "std::array<std::uint8_t, 3>", "[u8; 4]": "std::array<std::uint8_t, 4>", "[i8; 3]": "std::array<std::int8_t, 3>",
    "UniquePtr<C>": "std::unique_ptr<C>", "UniquePtr<D>": "std::unique_ptr<D>", "UniquePtr<CxxString>": "std::unique_ptr<std::string>", "UniquePtr<CxxVector<u8>>": "std::unique_ptr<std::vector<std::uint8_t>>",
    "SharedPtr<C>": "std::shared_ptr<C>", "WeakPtr<C>": "std::weak_ptr<C>", "&SharedPtr<C>": "const std::shared_ptr<C> &", "&UniquePtr<C>": "const std::unique_ptr<C> &",
    "&CxxVector<u8>": "const std::vector<std::uint8_t> &", "Pin<&mut CxxVector<u8>>": "std::vector<std::uint8_t> &", "&CxxVector<CxxString>": "const std::vector<std::string> &",
    "fn(u8) -> u8": "rust::Fn<std::uint8_t(std::uint8_t)>", "fn(u8)": "rust::Fn<void(std::uint8_t)>", "fn(&str) -> String": "rust::Fn<rust::String(rust::Str)>",
}
# what else a C++ function may take or return
OTHER = ["void", "void *", "int", "unsigned", "long", "unsigned long", "long long", "unsigned char", "signed char", "char16_t", "wchar_t", "const char *", "char *", "const void *",
         "std::string", "std::string *", "std::string &&", "rust::String &&", "rust::String *", "rust::Str &", "const rust::Str &", "C", "C &&", "const volatile C &", "volatile C &", "const C", "C **", "const E", "E *",
         "S &&", "const S", "S *", "const S *", "A &&", "A *", "std::unique_ptr<const C>", "std::unique_ptr<C> &", "std::unique_ptr<C> &&", "std::unique_ptr<C, Del>", "std::unique_ptr<C[]>", "std::shared_ptr<const C>", "std::shared_ptr<C> &",
         "std::vector<std::uint8_t>", "std::vector<char>", "std::array<std::uint8_t, 3> &", "std::uint8_t (&)[3]", "rust::Slice<std::uint8_t> &", "rust::Box<R> &", "rust::Box<R> &&", "R *", "const R *",
         "std::uint8_t (*)(std::uint8_t)", "rust::Fn<std::uint8_t(std::int8_t)>", "rust::Fn<std::uint8_t()>", "std::nullptr_t", "long double", "std::uint8_t &&", "const std::uint8_t", "volatile std::uint8_t &"]
RUST = '''    struct S { x: u8 }
    struct T { x: u8 }
    enum E { P, Q }
    extern "Rust" { type R; }
    impl Box<S> {}
'''
CTYPES = "        type C; type D; type A = crate::A;\n"
PRE = '''#pragma once
#include "rust/cxx.h"
#include <memory>
#include <string>
#include <vector>
struct C { int v; C() noexcept; ~C(); }; struct D { int v; ~D(); }; struct A { int v; };
struct Del { void operator()(C *) const; };
struct S; struct T; struct R; enum class E : std::uint8_t;
'''


def decl(t, name):
    """A C++ parameter or variable of type t."""
    for s in ("(*)", "(&)"):
        if s in t:
            return t.replace(s, s[:2] + name + ")", 1)
    return t + " " + name


def returns(t, f):
    """A declaration of the function f (with its parameters) returning t."""
    for s in ("(*)", "(&)"):
        if s in t:
            return t.replace(s, s[:2] + f + ")", 1)
    return t + " " + f


class Many:
    """Many declarations in few compilations: each has an id k<n>q that its C++ names contain."""

    def __init__(self, ck, g, tag):
        self.ck, self.g, self.tag, self.items = ck, g, tag, []

    def add(self, name, rust, cxx, user, ok, free="", need=""):
        """rust: items; cxx: extern C++ items; user: C++; {k} the id. ok: has to compile."""
        self.items.append((name, rust, cxx, user, ok, need))

    def text(self, idx):
        rust = "".join(self.items[i][1].replace("{k}", "k%dq" % i) + "\n" for i in idx)
        cxx = "".join(self.items[i][2].replace("{k}", "k%dq" % i) + "\n" for i in idx)
        user = "".join(self.items[i][3].replace("{k}", "k%dq" % i) + "\n" for i in idx)
        src = '#[cxx::bridge]\nmod ffi {\n%s%s    unsafe extern "C++" {\n        include!("user.h");\n%s%s    }\n}\n' % (RUST, rust, CTYPES, cxx)
        return src, PRE + user

    def compile(self, d, r, user, cc, std):
        gk.write(os.path.join(d, "user.h"), user)
        p = gk.write(os.path.join(d, "b.cc"), r.cc)
        lim = ["-ferror-limit=0"] if cc.startswith("clang") else ["-fmax-errors=0"]
        return self.g.cxx(p, ["-fsyntax-only", "-w"] + lim, cc, std)

    def single(self, i, cc, std):
        src, user = self.text([i])
        r = self.g.batch([src])[0]
        d = os.path.join(self.ck.work, self.tag, "s%d" % i)
        if not r.ok:
            return None, r.err, src + user
        rc, errs, se = self.compile(d, r, user, cc, std)
        return rc == 0, errs[0][2] if errs else se[-200:], src + "----\n" + user + "----\n" + r.cc[-3000:] + "----\n" + se[:2000]

    def run(self, combos, per=150):
        self.strays = []
        # those that agree have to compile together; of the others, each has to have an error of its own
        chunks = []
        for ok in (True, False):
            idx = [i for i, x in enumerate(self.items) if x[4] == ok]
            chunks += [idx[i:i + per] for i in range(0, len(idx), per)]
        texts = [self.text(c) for c in chunks]
        res = self.g.batch([t[0] for t in texts])
        todo = []
        for c, r in enumerate(res):
            if not r.ok:
                raise vk.Violation("%s: a bridge is refused: %s" % (self.tag, r.err[:500]), texts[c][0])
            for cc, std in combos:
                todo.append((c, cc, std))

        def one(a):
            n, (c, cc, std) = a
            d = os.path.join(self.ck.work, self.tag, str(n))
            rc, errs, se = self.compile(d, res[c], texts[c][1], cc, std)
            lines = {"b.cc": res[c].cc.split("\n"), "user.h": texts[c][1].split("\n")}
            hit, stray = set(), None
            # an error inside a library header belongs to what it is required from
            ctx = {}
            last = []
            for ln in se.split("\n"):
                mm = re.match(r"^(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$", ln)
                if mm:
                    ctx.setdefault(mm.groups(), []).extend(last)
                    cur, last = mm.groups(), []
                elif "required from" in ln or "In instantiation" in ln or "In file included" in ln:
                    last.append(ln)
                elif "in instantiation of" in ln and ctx:
                    ctx[cur].append(ln)
            for path, line, msg in errs:
                if os.path.basename(path) not in lines:
                    ids = set(re.findall(r"k(\d+)q", msg + " ".join(ctx.get((path, line, msg), []))))
                    for ln in ctx.get((path, line, msg), []):
                        mm = re.search(r"(?:^|/)(b\.cc|user\.h):(\d+)", ln)
                        for x in range(int(mm.group(2)) - 1, -1, -1) if mm and not ids else []:
                            ids = set(re.findall(r"k(\d+)q", lines[mm.group(1)][x]))
                            if ids:
                                break
                    hit.update(int(x) for x in ids)
                    if not ids:
                        stray = (path, line, msg)
                    continue
                l = lines.get(os.path.basename(path))
                ids = re.findall(r"k(\d+)q", msg)
                for x in range(int(line) - 1, -1, -1) if l and not ids else []:
                    ids = re.findall(r"k(\d+)q", l[x])
                    if ids:
                        break
                if ids:
                    hit.update(int(x) for x in ids)
                else:
                    # in the middle of a declaration that has its name further down
                    stray = (path, line, msg)
            shutil.rmtree(d, ignore_errors=True)
            if stray:
                self.strays.append((cc, stray))
            return c, cc, std, hit, stray, rc, se
        suspects = {}
        with vk.pool() as p:
            for c, cc, std, hit, stray, rc, se in p.map(one, list(enumerate(todo))):
                good = self.items[chunks[c][0]][4]
                for i in chunks[c]:
                    if rc and (i in hit or stray or not hit) if good else i not in hit:
                        suspects.setdefault(i, []).append((cc, std))
        # one by one
        sus = [(i, cc, std) for i, l in suspects.items() for cc, std in l]
        if len(sus) > 4000:
            sus = sus[:4000]
        with vk.pool() as p:
            for (i, cc, std), (ok, msg, text) in zip(sus, p.map(lambda a: self.single(*a), sus)):
                name, want = self.items[i][0], self.items[i][4]
                if ok is None:
                    self.ck.violation("%s: refused: %s" % (name, msg[:200]), text)
                elif ok != want:
                    self.ck.violation("%s: %s %s %s" % (name, cc, std, "compiles although C++ and the bridge disagree" if ok else "does not compile although they agree: " + msg), text, key="%s:%s" % (self.tag, name.replace(" ", "_")))
        for x in self.strays[:5] if os.environ.get("C16") else []:
            self.ck.log(str(x))
        n = len(self.items)
        bad = sum(not x[4] for x in self.items)
        self.ck.log("%s: %d declarations, %d of them wrong, %d compilations, %d looked at alone" % (self.tag, n, bad, len(todo), len(sus)))
        self.ck.count("evaluations", n * len(combos))
        self.ck.count("distinct_nontrivial", n)
        self.ck.sample("%s: %s" % (self.tag, self.items[n // 3][0]))
        shutil.rmtree(os.path.join(self.ck.work, self.tag), ignore_errors=True)


def same(ck, g, pairs):
    """Which pairs of C++ function types are the same, according to the compiler."""
    txt = PRE.replace("struct S; struct T; struct R; enum class E : std::uint8_t;", "struct S { unsigned char x; }; struct T { unsigned char x; }; struct R; enum class E : std::uint8_t { P, Q };") + "#include <array>\n#include <cstdio>\nint main() {\n" + "".join('std::putchar(std::is_same<%s, %s>::value ? \'1\' : \'0\');\n' % p for p in pairs) + "}\n"
    p = gk.write(os.path.join(ck.work, "same.cc"), txt)
    exe = p[:-3]
    rc, errs, se = g.cxx(p, ["-w", "-O0", "-o", exe])
    if rc:
        raise vk.Violation("the oracle does not compile: " + se[:500])
    return [c == "1" for c in vk.run([exe])[1]]


def signatures(ck, g):
    us = list(dict.fromkeys(list(TYPES.values()) + OTHER))
    arg = [(t, u) for t in TYPES for u in us if u not in ("void",)]
    ret = [(t, u) for t in TYPES if not t.startswith("fn") for u in us if "(&)" not in u or True]
    rets = [u for u in us]
    # types of functions
    eq = same(ck, g, [("void(%s)" % TYPES[t], "void(%s)" % decl(u, "").strip()) for t, u in arg])
    eqr = same(ck, g, [("decltype(f0_%d())" % a, "decltype(f1_%d())" % b) for a, b in []] or [("int", "int")])
    m = Many(ck, g, "argument")
    for (t, u), e in zip(arg, eq):
        un = "unsafe " if t.startswith("*") else ""
        m.add("%s as %s" % (t, u), "", '#[namespace = "{k}"] #[cxx_name = "f"] %sfn {k}(x: %s);' % (un, t), "namespace {k} { void f(%s); }" % decl(u, "x"), e)
    combos = [("g++", "c++17"), ("clang++", "c++20")] if ck.quick else [(c, s) for c in ("g++", "clang++") for s in ("c++11", "c++17", "c++23")]
    m.run(combos, 150)
    # return types: compared with std::is_same of the types themselves, top level const does not matter to the class types that cannot be ...
    plain = [u for u in rets]
    eqr = same(ck, g, [("std::remove_cv<%s>::type" % TYPES[t], "std::remove_cv<%s>::type" % (u if "(" not in u or u.startswith("rust::Fn") else "decltype(%s)" % probe(u))) for t, u in ret])
    m = Many(ck, g, "return")
    for (t, u), e in zip(ret, eqr):
        if u.startswith("const ") and not u.endswith(("&", "*")):
            e = False   # const S f() is not S f() unless S is a scalar, which loses it
            if u in ("const std::uint8_t", "const E"):
                continue
        a = ""
        if "&" in t:
            a = ("x: Pin<&mut CxxString>" if "&mut" in t else "x: &CxxString")
        m.add("%s as %s" % (t, u), "", '#[namespace = "{k}"] #[cxx_name = "f"] fn {k}(%s) -> %s;' % (a, t), "namespace {k} { %s; }" % returns(u, "f(%s)" % ("" if not a else "std::string &" if "&mut" in t else "const std::string &")), e)
    m.run(combos, 150)


def probe(u):
    return "std::declval<%s>()" % u


# ---------------------------------------------------------------- parameter lists, functions of every kind, methods
def lists(ck, g):
    al = {"u8": "std::uint8_t", "&str": "rust::Str", "&S": "const S &"}
    depth = ck.pick(2, 3)
    ls = [l for n in range(depth + 1) for l in itertools.product(al, repeat=n)]
    m = Many(ck, g, "list")
    for a, b in itertools.product(ls, ls):
        for res in ("", " -> Result<()>", " -> Result<u8>") if len(a) < 3 and len(b) < 3 else ("",):
            for cr in ("void", "std::uint8_t"):
                ok = a == b and (cr == "void") == ("u8" not in res)
                m.add("(%s)%s as %s(%s)" % (", ".join(a), res, cr, ", ".join(b)), "", '#[namespace = "{k}"] #[cxx_name = "f"] fn {k}(%s)%s;' % (", ".join("x%d: %s" % (i, t) for i, t in enumerate(a)), res), "namespace {k} { %s f(%s); }" % (cr, ", ".join(al[t] for t in b)), ok)
    kinds = {
        "plain": ("void f(std::uint8_t);", True), "static": ("static void f(std::uint8_t) {}", True), "inline": ("inline void f(std::uint8_t) {}", True), "extern C": ('extern "C" void f(std::uint8_t);', True),
        "noexcept": ("void f(std::uint8_t) noexcept;", True), "constant parameter": ("void f(const std::uint8_t);", True), "named": ("void f(std::uint8_t name);", True), "twice": ("void f(std::uint8_t); void f(std::uint8_t);", True),
        "overloaded": ("void f(int); void f(std::uint8_t); void f();", True), "overloaded, none fits": ("void f(int); void f(); void f(std::int8_t);", False), "overloaded return": ("int f(int); int f(std::uint8_t);", False),
        "template": ("template <class X> void f(X) {}", True), "template of two": ("template <class X, class Y> void f(X, Y) {}", False), "template of references": ("template <class X> void f(X &) {}", False),
        "default argument": ("void f(std::uint8_t x = 1);", True), "more with a default": ("void f(std::uint8_t, int = 1);", False), "variadic": ("void f(std::uint8_t, ...);", False), "only variadic": ("void f(...);", False),
        "deleted": ("void f(std::uint8_t) = delete;", False), "a variable": ("extern int f;", False), "a type": ("struct f { f(std::uint8_t); };", False), "missing": ("", False), "elsewhere": ("namespace inner { void f(std::uint8_t); }", False), "otherwise spelled": ("void F(std::uint8_t);", False),
        "imported": ("namespace inner { void f(std::uint8_t); } using inner::f;", True), "in an inline namespace": ("inline namespace v1 { void f(std::uint8_t); }", True),
        "function object": ("struct F { void operator()(std::uint8_t) const; }; extern F f;", False), "an alias of the type": ("using B = std::uint8_t; void f(B);", True), "an enumeration": ("enum B : std::uint8_t {}; void f(B);", False), "auto": ("inline auto f(std::uint8_t) -> void {}", True), "auto of int": ("inline auto f(std::uint8_t) -> int { return 0; }", False),
    }
    for n, (c, ok) in kinds.items():
        for res in ("", " -> Result<()>"):
            m.add("function %s%s" % (n, res), "", '#[namespace = "{k}"] #[cxx_name = "f"] fn {k}(x: u8)%s;' % res, "namespace {k} { %s\n}" % c, ok)
    # methods
    quals = ["", "const", "volatile", "const volatile", "&", "const &", "&&", "const &&", "noexcept", "const noexcept"]
    for rn, recv, const in (("&", "&{k}", True), ("Pin<&mut>", "Pin<&mut {k}>", False)):
        for sig, csig in (("", "void m()"), ("x: u8", "void m(std::uint8_t)"), ("x: &S", "void m(const S &)"), ("-> u8", "std::uint8_t m()"), ("-> &C", "const C &m()")):
            for q in quals:
                for sig2, csig2 in (("", "void m()"), ("x: u8", "void m(std::uint8_t)"), ("x: &S", "void m(const S &)"), ("-> u8", "std::uint8_t m()"), ("-> &C", "const C &m()")):
                    if sig != sig2 and q not in ("", "const"):
                        continue
                    for where, body in (("", "struct {k} { %s %s; };"), (" in a base", "struct Base{k} { %s %s; }; struct {k} : Base{k} {};"), (" virtual", "struct {k} { virtual %s %s; };"), (" private", "class {k} { %s %s; };"), (" protected", "struct {k} { protected: %s %s; };"), (" static", "struct {k} { static %s %s; };"), (" outside", "struct {k} {}; %s %s;"), (" in a private base", "struct Base{k} { %s %s; }; class {k} : Base{k} {};")):
                        if where and (sig != sig2 and q or q not in ("", "const")):
                            continue
                        if q and where in (" static", " outside"):
                            continue
                        ok = sig == sig2 and q.replace("noexcept", "").strip() == ("const" if const else "") and where in ("", " in a base", " virtual")
                        a, r = (sig, "") if not sig.startswith("->") else ("", " " + sig)
                        m.add("method %s(%s)%s as %s %s%s" % (rn, a, r, csig2, q, where), "", 'type {k}; fn m(self: %s%s)%s;' % (recv, ", " + a if a else "", r), body % (csig2, q), ok)
        for n, c, ok in (("overloaded by constness", "void m(); void m() const;", True), ("overloaded, none fits", "void m(int); void m(int) const;", False), ("template", "template <class X = int> void m() const {} ; template <class X = int> void m() {}", True), ("a field", "int m;", False), ("deleted", "void m() %s = delete;" % ("const" if const else ""), False), ("missing", "", False), ("default argument", "void m(int = 0) %s;" % ("const" if const else ""), False), ("of another class", "struct I { void m() const; void m(); };", False)):
            m.add("method %s %s" % (rn, n), "", "type {k}; fn m(self: %s);" % recv, "struct {k} { %s };" % c, ok)
    m.run([("g++", "c++17"), ("clang++", "c++20")] if ck.quick else [(c, s) for c in ("g++", "clang++") for s in ("c++14", "c++17", "c++23")], 150)


# ---------------------------------------------------------------- enums and types
def enums(ck, g):
    reprs = {"u8": ("std::uint8_t", 1, 0, 255), "i8": ("std::int8_t", 1, -128, 127), "u16": ("std::uint16_t", 2, 0, 65535), "i16": ("std::int16_t", 2, -32768, 32767), "u32": ("std::uint32_t", 4, 0, 2**32 - 1), "i32": ("std::int32_t", 4, -2**31, 2**31 - 1), "u64": ("std::uint64_t", 8, 0, 2**64 - 1), "i64": ("std::int64_t", 8, -2**63, 2**63 - 1)}
    m = Many(ck, g, "enum")

    def lit(v):
        return "(-9223372036854775807LL - 1)" if v == -2**63 else "%du" % v if v > 2**63 - 1 else str(v)

    def add(name, rp, variants, c, ok):
        m.add("enum %s" % name, '#[namespace = "n{k}"] ' + "%s enum {k} { %s }" % ("#[repr(%s)]" % rp if rp else "", ", ".join("%s = %d" % v if v[1] is not None else v[0] for v in variants)), '#[namespace = "n{k}"] type {k};', "namespace n{k} { %s }" % c, ok)
    for r, (cu, size, lo, hi) in reprs.items():
        for r2, (cu2, size2, lo2, hi2) in reprs.items():
            for v, v2 in itertools.product((0, 1, lo, hi), repeat=2):
                if not lo2 <= v2 <= hi2 or v == 0 and lo == 0 and False:
                    continue
                # same size, other sign: the sign is not compared (see DESIGN.md), the values within both ranges are
                if r != r2 and size == size2 and not (0 <= v <= min(hi, hi2) and 0 <= v2 <= min(hi, hi2)):
                    continue
                for kw in ("enum class", "enum"):
                    add("%s {A = %d} as %s : %s {A = %d}" % (r, v, kw, r2, v2), r, [("A", v)], "%s {k} : %s { A = %s };" % (kw, cu2, lit(v2)), size == size2 and v == v2)
    for vs, c, ok in (
        ([("A", None), ("B", None)], "A, B", True), ([("A", None), ("B", None)], "B, A", False), ([("A", None), ("B", None)], "A = 1, B = 0", False), ([("A", None), ("B", None)], "A", False),
        ([("A", None)], "A, B", True), ([("B", 1)], "A, B", True), ([("B", 0)], "A, B", False), ([("A", None), ("B", 5), ("X", None)], "A, B = 5, X", True), ([("A", None), ("B", 5), ("X", None)], "A, B = 5, X = 7", False), ([("A", None), ("B", 5), ("X", None)], "A, B, X = 6", False),
        ([("A", 1), ("B", 2)], "A = 1, B = A + 1", True), ([("A", None)], "a", False)):
        for rp, cu in (("", "std::uint8_t"), ("u8", "std::uint8_t"), ("u32", "std::uint32_t")):
            for kw in ("enum class", "enum"):
                add("%s %s as %s {%s}" % (rp, vs, kw, c), rp, vs, "%s {k} : %s { %s };" % (kw, cu, c), ok)
    for n, c, ok in (("struct", "struct {k} { static constexpr std::uint8_t A = 0; unsigned char x; };", False), ("integer", "using {k} = std::uint8_t;", False), ("missing", "", False), ("only declared", "enum class {k} : std::uint8_t;", False), ("alias", "enum class Z{k} : std::uint8_t { A }; using {k} = Z{k};", True), ("class", "class {k} { std::uint8_t x; };", False), ("no fixed type", "enum {k} { A };", False), ("bool", "enum class {k} : bool { A };", True)):
        if n == "bool":
            continue   # a bool of the size of u8: representation of the same size
        add("{A} as " + n, "u8", [("A", None)], c, ok)
        if n == "no fixed type":
            add("u32 as no fixed type", "u32", [("A", None)], c, True)
    m.run([("g++", "c++14"), ("clang++", "c++17")] if ck.quick else [(c, s) for c in ("g++", "clang++") for s in ("c++11", "c++17", "c++23")], 120)


TRIV = {
    "plain": ("struct {k} { int v; };", True), "empty": ("struct {k} {};", True), "union": ("union {k} { int v; float w; };", True), "enumeration": ("enum class {k} { A };", True), "integer": ("using {k} = int;", True), "pointer": ("using {k} = int *;", True),
    "constructor": ("struct {k} { int v; {k}(int); {k}() noexcept; };", True), "const field": ("struct {k} { const int v; };", True), "private field": ("class {k} { int v; };", True), "derived": ("struct B{k} { int v; }; struct {k} : B{k} {};", True), "copy assignment": ("struct {k} { int v; {k} &operator=(const {k} &); };", True), "defaulted": ("struct {k} { {k}({k} &&) = default; ~{k}() = default; };", True),
    "only moved": ("struct {k} { {k}(const {k} &) = delete; {k}({k} &&) = default; };", True), "aligned": ("struct alignas(16) {k} { int v; };", True), "array inside": ("struct {k} { int v[4]; };", True), "volatile field": ("struct {k} { volatile int v; };", True),
    "destructor": ("struct {k} { int v; ~{k}(); };", False), "inline destructor": ("struct {k} { int v; ~{k}() {} };", False), "virtual destructor": ("struct {k} { virtual ~{k}(); };", False), "virtual function": ("struct {k} { virtual void f(); };", False),
    "move": ("struct {k} { int v; {k}({k} &&); };", False), "copy": ("struct {k} { int v; {k}(const {k} &); };", False), "deleted move": ("struct {k} { {k}({k} &&) = delete; };", False), "private move": ("class {k} { {k}({k} &&) = default; };", False), "deleted destructor": ("struct {k} { ~{k}() = delete; };", False), "private destructor": ("class {k} { ~{k}() = default; };", False),
    "a string inside": ("struct {k} { std::string s; };", False), "a pointer that owns": ("struct {k} { std::unique_ptr<int> p; };", False), "derived from a string": ("struct {k} : std::string {};", False), "virtual base": ("struct B{k} { int v; }; struct {k} : virtual B{k} {};", False), "a rust::String inside": ("struct {k} { rust::String s; };", False), "a union of a string": ("union {k} { int v; std::string s; ~{k}(); };", False),
    "declared relocatable": ("struct {k} { int v; {k}({k} &&) noexcept; ~{k}(); using IsRelocatable = std::true_type; };", True), "specialized relocatable": ("struct {k} { int v; {k}({k} &&) noexcept; ~{k}(); }; template <> struct rust::IsRelocatable<{k}> : std::true_type {};", True),
    "declared not relocatable": ("struct {k} { int v; using IsRelocatable = std::false_type; };", False), "specialized not relocatable": ("struct {k} { int v; }; template <> struct rust::IsRelocatable<{k}> : std::false_type {};", False), "declared something": ("struct {k} { int v; using IsRelocatable = int; };", False),
    "derived from relocatable": ("struct B{k} { int v; B{k}(B{k} &&) noexcept; ~B{k}(); using IsRelocatable = std::true_type; }; struct {k} : B{k} { {k}({k} &&) noexcept; ~{k}(); };", True),
    "incomplete": ("struct {k};", False), "missing": ("", False),
}


def types(ck, g):
    """Types that the bridge holds by value, and pointers to types that C++ has to delete."""
    m = Many(ck, g, "trivial")
    pos = {
        "argument": 'fn f{k}(x: {k});', "return": "fn f{k}() -> {k};", "Result": "fn f{k}() -> Result<{k}>;",
        "field": ("struct S{k} { x: {k} }", ""), "field of a field": ("struct S{k} { x: T{k} } struct T{k} { y: u8, x: {k} }", ""), 
        "slice": "fn f{k}(x: &[{k}]);", "Rust slice": ('extern "Rust" { fn f{k}(x: &mut [{k}]); }', ""), "Vec": "fn f{k}(x: &Vec<{k}>);", "Rust argument": ('extern "Rust" { fn f{k}(x: {k}); }', ""), "Rust return": ('extern "Rust" { fn f{k}() -> {k}; }', ""),
        "impl Box": ("impl Box<{k}> {}", ""), "impl Vec": ("impl Vec<{k}> {}", ""),
        "function pointer": "fn f{k}(x: fn({k}));", "function pointer return": "fn f{k}(x: fn() -> {k});", "unused": "",
    }
    free = {"unused"}
    for pn, p in pos.items():
        rust, cxx = p if isinstance(p, tuple) else ("", p)
        for n, (c, ok) in TRIV.items():
            user = c
            if cxx.startswith("fn f{k}("):
                # what the user has to declare, which names the type only where it exists
                t = {"argument": "void f{k}({k});", "return": "{k} f{k}();", "Result": "{k} f{k}();", "slice": "void f{k}(rust::Slice<const {k}>);", "Vec": "void f{k}(const rust::Vec<{k}> &);", "function pointer": "void f{k}(rust::Fn<void({k})>);", "function pointer return": "void f{k}(rust::Fn<{k}()>);"}[pn]
                if n == "missing":
                    t = ""
                user = c + " " + t
            if pn == "unused":
                if n in ("missing",):
                    continue
                ok = True
            if pn in ("impl Box", "slice", "Rust slice", "Vec", "impl Vec") and n in ("incomplete",):
                continue
            if pn in ("slice", "Rust slice", "impl Box", "function pointer", "function pointer return") and not ok:
                continue   # decided below, where the documentation says by value
            if n in ("derived from relocatable", "specialized relocatable", "specialized not relocatable", "declared something") and False:
                continue
            if "field" in pn and n in ("empty",) and False:
                continue
            m.add("%s: %s" % (pn, n), rust, "type {k} = crate::{k}; " + cxx, user, ok)
    # an array typedef is fine inside a struct
    m.add("field: array type", "struct S{k} { x: {k} }", "type {k} = crate::{k};", "using {k} = char[8];", True)
    m.add("argument: array type", "", "type {k} = crate::{k}; fn f{k}(x: {k});", "using {k} = char[8]; void f{k}({k});", False)
    m.add("field: array of a string", "struct S{k} { x: {k} }", "type {k} = crate::{k};", "using {k} = std::string[2];", False)
    # what a smart pointer points to
    for w in ("UniquePtr", "SharedPtr", "WeakPtr", "CxxVector"):
        cw = {"UniquePtr": "std::unique_ptr<%s>", "SharedPtr": "std::shared_ptr<%s>", "WeakPtr": "std::weak_ptr<%s>", "CxxVector": "std::unique_ptr<std::vector<%s>>"}[w]
        rw = "UniquePtr<CxxVector<{k}>>" if w == "CxxVector" else w + "<{k}>"
        for n, c, ok in (("complete", "struct {k} { int v; };", True), ("incomplete", "struct {k};", w in ("SharedPtr", "WeakPtr") and None), ("missing", "", False), ("private destructor", "class {k} { ~{k}(); };", {"WeakPtr": None, "SharedPtr": None}.get(w, False)), ("not movable", "struct {k} { {k}() noexcept; {k}({k} &&) = delete; };", {"CxxVector": None}.get(w, True)), ("abstract", "struct {k} { virtual void f() = 0; virtual ~{k}() = default; };", {"CxxVector": None}.get(w, True))):
            if ok is None:
                continue
            m.add("%s: %s" % (w, n), "", "type {k}; fn f{k}() -> %s;" % rw, c + (" %s f{k}();" % (cw % "{k}") if n != "missing" else ""), ok)
    for n, c, ok in (("a class", "class {k};", True), ("a struct", "struct {k} { int x; };", True), ("an alias", "struct Z{k}; using {k} = Z{k};", True), ("a template's instance", "template <class X> struct Z{k} {}; using {k} = Z{k}<int>;", True), ("a template", "template <class X> struct {k} {};", False), ("a function", "void {k}();", False), ("a namespace", "namespace {k} {}", False), ("missing", "", False), ("in another namespace", "namespace z { struct {k}; }", False)):
        m.add("opaque: " + n, "", "type {k}; fn f{k}(x: &{k});", c + (" void f{k}(const struct Q{k} &);" if not ok else " void f{k}(const {k} &);"), ok)
    m.run([("g++", "c++17"), ("clang++", "c++20")] if ck.quick else [(c, s) for c in ("g++", "clang++") for s in ("c++11", "c++17", "c++23")], 60)


# ---------------------------------------------------------------- the Rust side
def identities(ck, g):
    """type_id! of every pair of names; aliases under every name."""
    parts = ["a", "A", "b", "ab", "a_b", "_", "a1", "r"] if ck.quick else ["a", "A", "b", "ab", "a_b", "_a", "a_", "a1", "r", "z9", "Z"]
    names = parts + ["%s::%s" % p for p in itertools.product(parts[:6], repeat=2)] + ["%s::%s::%s" % p for p in itertools.product(parts[:2], repeat=3)] + ["aa::b", "a::ab", "a::a::b", "é", "a::é", "e"]
    mods, want = [], []
    for x in names:
        # every other name at once: each line must be refused but the one that agrees
        for y in names:
            mods.append('use cxx::{ExternType, type_id}; pub struct T; unsafe impl ExternType for T { type Id = type_id!("%s"); type Kind = cxx::kind::Opaque; } pub fn f() { fn same<T: ExternType<Id = type_id!("%s")>>() {} same::<T>(); }' % (x, y))
            want.append((x == y, 'type_id!("%s") and type_id!("%s")' % (x, y)))
    # many more names, all of them different types: two equal ones are conflicting implementations
    import string, unicodedata
    cont = string.ascii_letters + string.digits + "_"
    many = [c for c in string.ascii_letters] + ["a" + c for c in cont] + ["z%sz" % c for c in cont]
    for c in list(range(0xaa, ck.pick(0x250, 0x600))) + [x + y for x in (0xe4, 0x61, 0x41) for y in (0x1e00, 0x4e00, 0x5000, 0x5100, 0x10000, 0x10300, 0x20000, 0x20100)]:
        if ("a" + chr(c)).isidentifier() and unicodedata.normalize("NFC", chr(c)) == chr(c) and unicodedata.category(chr(c))[0] == "L":
            many += ["a" + chr(c)] + ([chr(c)] if chr(c).isidentifier() else [])
    for n in range(1, ck.pick(5, 6)):
        for t in itertools.product(["a", "B", "_", "1", "::"], repeat=n):
            w = "".join(t)
            if all(x and x.isidentifier() and x != "_" for x in w.split("::")):
                many.append(w)
    many = list(dict.fromkeys(many))
    for n, lo in enumerate(range(0, len(many), 4000)):
        src = "pub trait M {}\n" + "".join('impl M for cxx::type_id!("%s") {}\n' % x for x in many[lo:lo + 4000])
        path = gk.write(os.path.join(ck.work, "ids%d.rs" % n), src)
        rc, errs, se = g.rustc(path, os.path.join(ck.work, "ids%d.rmeta" % n), ["--crate-type", "lib", "--emit", "metadata", "--crate-name", "ids"])
        for ln, msg in errs[:3]:
            who = ", ".join(many[lo + l - 2] for l in sorted(ln) if 2 <= l < 2 + len(many))
            ck.violation("type_id! of %s: %s" % (who, msg), "%s\n%s" % (who, se[:3000]))
        if rc and not errs:
            ck.violation("type_id! of many names does not compile", se[:3000])
    ck.log("%d names have ids of their own" % len(many))
    ck.count("evaluations", len(many))
    # through the bridge: where the name comes from the namespace, the identifier and the attributes
    idents = ["T", "U", "n"]
    spaces = ["", "n", "m", "n::m"]

    def full(ns, i):
        return ns + "::" + i if ns else i
    for bridge_ns, own_ns, ident, cname in itertools.product(spaces, [None] + spaces[1:], idents[:2], [None, "T", "V"]):
        real = full(bridge_ns if own_ns is None else own_ns, cname or ident)
        for x in dict.fromkeys([full(n, i) for n in spaces for i in ("T", "U", "V")]):
            at = ('#[namespace = "%s"] ' % own_ns if own_ns is not None else "") + ('#[cxx_name = "%s"] ' % cname if cname else "")
            mods.append('use cxx::{ExternType, type_id}; pub struct Own; unsafe impl ExternType for Own { type Id = type_id!("%s"); type Kind = cxx::kind::Opaque; } #[cxx::bridge%s] pub mod ffi { unsafe extern "C++" { %stype %s = super::Own; } }' % (x, '(namespace = "%s")' % bridge_ns if bridge_ns else "", at, ident))
            want.append((x == real, "an alias named %s of a type with the id %s" % (real, x)))
    # two bridges
    for (ns1, c1, ns2, c2) in itertools.product(("", "n"), (None, "V"), ("", "n"), (None, "V", "T")):
        for kind, d in (("opaque", 'unsafe extern "C++" { %s type T; }'), ("struct", "%s struct T { x: u8 }"), ("enum", "%s enum T { A }")):
            a1 = '#[namespace = "%s"] ' % ns1 + ('#[cxx_name = "%s"]' % c1 if c1 else "")
            a2 = '#[namespace = "%s"] ' % ns2 + ('#[cxx_name = "%s"]' % c2 if c2 else "")
            mods.append('#[cxx::bridge] pub mod one { %s } #[cxx::bridge] pub mod two { unsafe extern "C++" { %s type T = super::one::T; } }' % (d % a1, a2))
            want.append(((ns1, c1 or "T") == (ns2, c2 or "T"), "an alias %s of the %s %s of another bridge" % (full(ns2, c2 or "T"), kind, full(ns1, c1 or "T"))))
    # the library's own
    own = {"bool": "bool", "u8": "std::uint8_t", "u16": "std::uint16_t", "u32": "std::uint32_t", "u64": "std::uint64_t", "usize": "size_t", "i8": "std::int8_t", "i16": "std::int16_t", "i32": "std::int32_t", "i64": "std::int64_t", "isize": "rust::isize", "f32": "float", "f64": "double", "String": "rust::String", "cxx::CxxString": "std::string"}
    for (t, _), n in itertools.product(own.items(), own.values()):
        mods.append('use cxx::{ExternType, type_id}; pub fn f() { fn same<T: ExternType<Id = type_id!("%s")>>() {} same::<%s>(); }' % (n, t))
        want.append((own[t] == n, "%s as %s" % (t, n)))
        if n == "bool":
            for k in ("Trivial", "Opaque"):
                mods.append("use cxx::ExternType; pub fn f() { fn same<T: ExternType<Kind = cxx::kind::%s>>() {} same::<%s>(); }" % (k, t))
                want.append(((k == "Opaque") == (t == "cxx::CxxString"), "%s is %s" % (t, k)))
    # kinds: what needs a type that may be moved
    uses = {
        "C++ argument": ("fn f(x: T);", True), "C++ return": ("fn f() -> T;", True), "C++ Result": ("fn f() -> Result<T>;", True), "reference": ("fn f(x: &T) -> &T;", False), "pinned": ("fn f(x: Pin<&mut T>);", False), "pointer": ("unsafe fn f(x: *const T, y: *mut T);", False),
        "UniquePtr": ("} impl UniquePtr<T> {} unsafe extern \"C++\" { fn f(x: UniquePtr<T>) -> UniquePtr<T>;", False), "SharedPtr": ("} impl SharedPtr<T> {} unsafe extern \"C++\" { fn f(x: SharedPtr<T>);", False), "WeakPtr": ("} impl WeakPtr<T> {} unsafe extern \"C++\" { fn f(x: WeakPtr<T>);", False), "CxxVector": ("} impl CxxVector<T> {} unsafe extern \"C++\" { fn f(x: &CxxVector<T>);", False), "method": ("fn f(self: &T);", False), "pinned method": ("fn f(self: Pin<&mut T>);", False),
        "C++ slice": ("fn f(x: &[T]);", True), "C++ Vec": ("} impl Vec<T> {} unsafe extern \"C++\" { fn f(x: &Vec<T>);", True), "C++ Box": ("} impl Box<T> {} unsafe extern \"C++\" { fn f(x: Box<T>);", True), "function pointer": ("fn f(x: fn(T));", True), "function pointer return": ("fn f(x: fn() -> T);", True), "nothing": ("", False),
        "field": ("} struct S { x: T } unsafe extern \"C++\" {", True), "pointer field": ("} struct S { x: UniquePtr<T>, y: SharedPtr<T>, z: *const T } impl UniquePtr<T> {} impl SharedPtr<T> {} unsafe extern \"C++\" {", False), "Vec field": ("} struct S { x: Vec<T> } impl Vec<T> {} unsafe extern \"C++\" {", True), "Box field": ("} struct S { x: Box<T> } impl Box<T> {} unsafe extern \"C++\" {", True),
        "Rust argument": ('} extern "Rust" { fn g(x: T); } unsafe extern "C++" {', True), "Rust return": ('} extern "Rust" { fn h() -> T; } unsafe extern "C++" {', True), "Rust reference": ('} extern "Rust" { fn i(x: &T, y: Pin<&mut T>); } unsafe extern "C++" {', False), "impl UniquePtr": ('} impl UniquePtr<T> {} unsafe extern "C++" {', False), "impl Box": ('} impl Box<T> {} unsafe extern "C++" {', True), "impl Vec": ('} impl Vec<T> {} unsafe extern "C++" {', True),
    }
    kinds = {
        "opaque": ("unsafe impl cxx::ExternType for T { type Id = cxx::type_id!(\"T\"); type Kind = cxx::kind::Opaque; }", False), "trivial": ("unsafe impl cxx::ExternType for T { type Id = cxx::type_id!(\"T\"); type Kind = cxx::kind::Trivial; }", True), "nothing": ("", None),
    }
    for (un, (u, by_value)), (kn, (k, triv)) in itertools.product(uses.items(), kinds.items()):
        mods.append('#[repr(C)] pub struct T { x: u8 } %s pub fn g(x: T) {} pub fn h() -> T { loop {} } pub fn i(x: &T, y: core::pin::Pin<&mut T>) {} #[cxx::bridge] pub mod ffi { unsafe extern "C++" { type T = super::T; %s } }' % (k, u))
        want.append((False if triv is None else triv or not by_value, "%s of an alias of a type with %s" % (un, "no ExternType" if triv is None else "the kind " + kn)))
    for kn, d, triv in (("opaque type", 'unsafe extern "C++" { type T; }', False), ("struct", "struct T { x: u8 }", True), ("enum", "enum T { A }", True)):
        for un, (u, by_value) in uses.items():
            mods.append('#[cxx::bridge] pub mod one { %s } use one::T; pub fn g(x: T) {} pub fn h() -> T { loop {} } pub fn i(x: &T, y: core::pin::Pin<&mut T>) {} #[cxx::bridge] pub mod ffi { unsafe extern "C++" { type T = super::one::T; %s } }' % (d, u))
            want.append((triv or not by_value, "%s of an alias of the %s of another bridge" % (un, kn)))
    v = g.verdicts(mods, tag="ids", per=300, rounds=40)
    n = 0
    for m, (ok, name), src in zip(v, want, mods):
        if ok != (not m):
            ck.violation("%s is %s" % (name, "refused: %s" % m[0] if m else "accepted"), src, key="id:" + name.replace(" ", "_"))
    ck.log("%d type identities and kinds, %d to be refused" % (len(mods), sum(not w[0] for w in want)))
    ck.count("evaluations", len(mods))
    ck.count("distinct_nontrivial", len(mods))


def run(ck):
    g = gk.Gen(ck)
    parts = os.environ.get("C16", "").split(",")
    for f in (signatures, lists, enums, types, identities):
        if parts == [""] or f.__name__ in parts:
            f(ck, g)
    ck.cov["rule"] = "distinct pairs of a bridge declaration and a C++ declaration, or of an alias and an extern type"
