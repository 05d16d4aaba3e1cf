"""C19: conditional compilation selects the same items in both languages."""
import itertools, os, re
import gk, vk
LEVEL = "model_checking"

ATOMS = [("a", None), ("b", "x"), ("feature", "f")]


def atom_text(a):
    return a[0] if a[1] is None else '%s = "%s"' % a


# ---- expressions: ("atom", i), ("not", e), ("all", (..)), ("any", (..)) ---------
def text(e, atoms=ATOMS):
    if e[0] == "atom":
        return atom_text(atoms[e[1]])
    if e[0] == "not":
        return "not(%s)" % text(e[1], atoms)
    return "%s(%s)" % (e[0], ", ".join(text(x, atoms) for x in e[1]))


def kleene(e, env):
    """True, False or None (undetermined)."""
    if e[0] == "atom":
        return env[e[1]]
    if e[0] == "not":
        v = kleene(e[1], env)
        return None if v is None else not v
    vs = [kleene(x, env) for x in e[1]]
    stop = e[0] == "any"
    if stop in vs:
        return stop
    return None if None in vs else not stop


def completions(e, env):
    free = [i for i, v in enumerate(env) if v is None]
    out = set()
    for vs in itertools.product((True, False), repeat=len(free)):
        m = list(env)
        for i, v in zip(free, vs):
            m[i] = v
        out.add(kleene(e, m))
    return out


def expressions(ck):
    l1 = [("atom", i) for i in range(3)]
    ops = lambda kids, ns: [(o, c) for o in ("all", "any") for n in ns for c in itertools.product(kids, repeat=n)]
    l2 = [("not", x) for x in l1] + ops(l1, (0, 1, 2, 3))
    low = l1 + l2
    l3 = [("not", x) for x in l2] + [(o, (x,)) for o in ("all", "any") for x in l2]
    l3 += [(o, c) for o in ("all", "any") for c in itertools.product(low, repeat=2) if any(x in c for x in l2)]
    l3 = ck.pick([e for e in l3 if e[0] == "not" or len(e[1]) < 2 or e[1][0] in l1 or e[1][1] in l1 or len(e[1][0][1]) < 2 or e[1][0][0] == "not"], l3)
    l4 = [("not", x) for x in l3] if ck.quick else [("not", x) for x in l3] + [(o, c) for o in ("all", "any") for a in l1 for x in l3 for c in ((a, x), (x, a))]
    return list(dict.fromkeys(low + l3 + l4))


def gen_cfg(env):
    """The harness evaluator's configuration for atoms that are true, false or undetermined."""
    out = ["*"]
    for a, v in zip(ATOMS, env):
        if v is None:
            out.append("?" + a[0])
        elif v:
            out.append(a[0] if a[1] is None else "%s=%s" % a)
    return "\n".join(out)


def rustc_flags(env, atoms=ATOMS):
    return [x for a, v in zip(atoms, env) if v for x in ("--cfg", a[0] if a[1] is None else '%s="%s"' % a)]


def rustc_table(ck, g, tag, exprs, flags):
    """What rustc makes of each expression: the text of a list of booleans."""
    p = gk.write(os.path.join(ck.work, tag + ".rs"), "fn main() { for b in [\n%s] { print!(\"{}\", b as u8); } }\n" % "".join("cfg!(%s),\n" % e for e in exprs))
    rc, errs, se = g.rustc(p, p + ".exe", ["--crate-type", "bin", "--crate-name", tag] + flags)
    if rc:
        raise vk.Violation("rustc does not take the expressions: %s" % errs[:2], se)
    rc, so, se = vk.run([p + ".exe"])
    return [c == "1" for c in so]


def words(r):
    return set(re.findall(r"[A-Za-z_][A-Za-z_0-9]*", r.header + r.cc))


def logic(ck, g):
    """Every expression in every configuration of three atoms, true, false or undetermined."""
    ex = expressions(ck)
    ck.count("expressions", len(ex))
    full = list(itertools.product((True, False), repeat=3))
    with vk.pool() as p:
        tabs = list(p.map(lambda k: rustc_table(ck, g, "t%d" % k, [text(e) for e in ex], rustc_flags(full[k])), range(8)))
    reqs, meta = [], []
    for env, tab in zip(full, tabs):
        for lo in range(0, len(ex), 400):
            part = ex[lo:lo + 400]
            reqs.append(("#[cxx::bridge]\nmod ffi { extern \"Rust\" { %s } }" % "\n".join("#[cfg(%s)] fn f%d();" % (text(e), i) for i, e in enumerate(part)), gen_cfg(env), "", ""))
            meta.append((env, part, tab[lo:lo + 400]))
    for (env, part, tab), r in zip(meta, g.batch(reqs)):
        ck.count("evaluations", len(part))
        if not r.ok:
            ck.violation("rejected in a complete configuration %s: %s" % (env, r.err[:300]), r.err)
            continue
        w = words(r)
        for i, (e, t) in enumerate(zip(part, tab)):
            if kleene(e, env) != t:
                raise vk.Violation("the oracle disagrees with rustc on %s in %s" % (text(e), env), "")
            if ("f%d" % i in w) != t:
                ck.violation("cfg(%s) with %s: the generator %s the item, rustc %s it" % (text(e), gen_cfg(env).replace("\n", " "), "keeps" if "f%d" % i in w else "drops", "keeps" if t else "drops"), text(e), key="cfg(%s)" % text(e).replace(" ", ""))
    ck.log("complete configurations")
    part = [e for e in itertools.product((True, False, None), repeat=3) if None in e]
    for env in part:
        reqs = [("#[cxx::bridge]\nmod ffi { extern \"Rust\" { #[cfg(%s)] fn marked(); fn other(); } }" % text(e), gen_cfg(env), "", "") for e in ex]
        und = 0
        for e, r in zip(ex, g.batch(reqs)):
            ck.count("evaluations")
            k, c = kleene(e, env), completions(e, env)
            has = r.ok and "marked" in words(r)
            what = None
            if r.st > 1:
                what = "%s: %s" % (gk.STATUS[r.st], r.err[:200])
            elif r.ok and len(c) == 2:
                what = "the generator guesses (%s) where the configuration does not decide" % ("keeps" if has else "drops")
            elif r.ok and has not in c:
                what = "the generator %s the item" % ("keeps" if has else "drops")
            elif not r.ok and k is not None:
                what = "error although the rest of the expression decides: " + r.err[:200]
            elif not r.ok:
                und += 1
            if what:
                ck.violation("cfg(%s) with %s: %s" % (text(e), gen_cfg(env).replace("\n", " "), what), text(e), key="cfg(%s)" % text(e).replace(" ", ""))
        ck.count("undetermined", und)
    # the default evaluator knows nothing
    for e, r in zip(ex, g.batch([("#[cxx::bridge]\nmod ffi { extern \"Rust\" { #[cfg(%s)] fn marked(); } }" % text(e), "", "", "") for e in ex])):
        ck.count("evaluations")
        k = kleene(e, (None,) * 3)
        c = completions(e, (None,) * 3)
        has = r.ok and "marked" in words(r)
        if r.st > 1 or (r.ok and (len(c) == 2 or has not in c)) or (not r.ok and k is not None):
            ck.violation("cfg(%s) without any configuration: %s" % (text(e), gk.STATUS[r.st] + " " + r.err[:200]), text(e), key="default(%s)" % text(e).replace(" ", ""))
    return len(ex) * 28


# ---- positions -----------------------------------------------------------------
# name: (items, what the item is called in C++, probe, Rust outside the bridge)
# {C} is where the attribute goes
U = 'unsafe extern "C++" { include!("x.h"); type T; } '
POS = {
    "struct": ("{C} struct Mk { x: u8 }", "Mk", "fn p(_: &ffi::Mk) {}", ""),
    "struct_derive": ("{C} #[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)] struct Mk { x: u8 }", "Mk", "fn p(_: &ffi::Mk) {}", ""),
    "enum": ("{C} enum Mk { A, B }", "Mk", "fn p(_: &ffi::Mk) {}", ""),
    "enum_derive": ("{C} #[derive(Debug, PartialOrd, Ord, Hash)] enum Mk { A, B }", "Mk", "fn p(_: &ffi::Mk) {}", ""),
    "field": ("struct S { keep: u8, {C} mk: u16 }", "mk", "fn p(s: &ffi::S) -> u16 { s.mk }", ""),
    "field_first": ("struct S { {C} mk: u16, keep: u8 }", "mk", "fn p(s: &ffi::S) -> u16 { s.mk }", ""),
    "field_eq_hash": ("#[derive(PartialEq, Eq, Hash)] struct S { keep: u8, {C} mk: u16 }", "mk", "fn p(s: &ffi::S) -> u16 { s.mk }", ""),
    "field_clone": ("#[derive(Clone)] struct S { keep: u8, {C} mk: u16 }", "mk", "fn p(s: &ffi::S) -> u16 { s.mk }", ""),
    "field_debug": ("#[derive(Debug)] struct S { keep: u8, {C} mk: u16 }", "mk", "fn p(s: &ffi::S) -> u16 { s.mk }", ""),
    "field_default": ("#[derive(Default)] struct S { keep: u8, {C} mk: u16 }", "mk", "fn p(s: &ffi::S) -> u16 { s.mk }", ""),
    "field_ord": ("#[derive(PartialEq, PartialOrd, Eq, Ord)] struct S { keep: u8, {C} mk: u16 }", "mk", "fn p(s: &ffi::S) -> u16 { s.mk }", ""),
    "variant": ("enum E { Keep, {C} Mk, Last }", "Mk", "const P: ffi::E = ffi::E::Mk;", ""),
    "variant_ord": ("#[derive(PartialOrd, Ord, Hash)] enum E { {C} Mk, Keep }", "Mk", "const P: ffi::E = ffi::E::Mk;", ""),
    "variant_debug": ("#[derive(Debug)] enum E { Keep, {C} Mk }", "Mk", "const P: ffi::E = ffi::E::Mk;", ""),
    "extern_struct": ('{C} struct Mk { x: u8 } unsafe extern "C++" { include!("x.h"); {C} type Mk; }', "Mk", "fn p(_: &ffi::Mk) {}", ""),
    "extern_enum": ('{C} #[repr(u8)] enum Mk { A } unsafe extern "C++" { include!("x.h"); {C} type Mk; }', "Mk", "fn p(_: &ffi::Mk) {}", ""),
    "cxx_type": ('unsafe extern "C++" { include!("x.h"); {C} type Mk; }', "Mk", "fn p(_: &ffi::Mk) {}", ""),
    "cxx_alias": ('unsafe extern "C++" { include!("x.h"); {C} type Mk = super::super::Al; }', None, "fn p(_: &ffi::Mk) {}", ""),
    "cxx_fn": (U + 'unsafe extern "C++" { {C} fn mk(); }', "mk", "fn p() { ffi::mk() }", ""),
    "cxx_fn_result": (U + 'unsafe extern "C++" { {C} fn mk(x: u8) -> Result<String>; }', "mk", "fn p() { let _ = ffi::mk(1); }", ""),
    "cxx_fn_callback": (U + 'unsafe extern "C++" { {C} fn mk(x: fn(u8) -> u8); }', "mk", "fn p() { ffi::mk(|x| x) }", ""),
    "cxx_fn_unique_ptr": (U + 'unsafe extern "C++" { {C} fn mk() -> UniquePtr<T>; }', "mk", "fn p() { ffi::mk(); }", ""),
    "cxx_method": (U + 'unsafe extern "C++" { {C} fn mk(self: &T); }', "mk", "fn p(t: &ffi::T) { t.mk() }", ""),
    "rust_fn": ('extern "Rust" { {C} fn mk(); }', "mk", None, "fn mk() {}"),
    "rust_fn_absent": ('extern "Rust" { {C} fn mk(); }', None, None, "{C} fn mk() {}"),
    "rust_fn_result": ('extern "Rust" { {C} fn mk() -> Result<Vec<u8>>; }', "mk", None, "fn mk() -> Result<Vec<u8>, String> { Ok(vec![]) }"),
    "rust_method": ('extern "Rust" { type R; {C} fn mk(self: &R); }', "mk", None, "pub struct R; impl R { fn mk(&self) {} }"),
    "rust_type": ('extern "Rust" { {C} type Mk; }', "Mk", None, "pub struct Mk;"),
    "impl_box": ('extern "Rust" { type R; } {C} impl Box<R> {}', "box", None, "pub struct R;"),
    "impl_vec": ('extern "Rust" { type R; } {C} impl Vec<R> {}', "rust_vec", None, "pub struct R;"),
    "impl_unique_ptr": (U + "{C} impl UniquePtr<T> {}", "unique_ptr", "fn p(_: cxx::UniquePtr<ffi::T>) {}", ""),
    "impl_shared_ptr": (U + "{C} impl SharedPtr<T> {}", "shared_ptr", "fn p(_: cxx::SharedPtr<ffi::T>) {}", ""),
    "impl_weak_ptr": (U + "{C} impl WeakPtr<T> {}", "weak_ptr", "fn p(_: cxx::WeakPtr<ffi::T>) {}", ""),
    "impl_cxx_vector": (U + "{C} impl CxxVector<T> {}", "vector", "fn p(_: cxx::UniquePtr<cxx::CxxVector<ffi::T>>) {}", ""),
    "include": ('unsafe extern "C++" { {C} include!("mk.h"); }', "mk", None, ""),
    "block_cxx": (U + '{C} unsafe extern "C++" { fn mk(); fn mk2(x: u8); }', "mk", "fn p() { ffi::mk() }", ""),
    "block_cxx_type": ('{C} unsafe extern "C++" { include!("mk.h"); type Mk; }', "Mk", "fn p(_: &ffi::Mk) {}", ""),
    "block_rust": ('{C} extern "Rust" { fn mk(); fn mk2(); }', "mk", None, "fn mk() {} fn mk2() {}"),
    "block_rust_type": ('{C} extern "Rust" { type Mk; fn mk(self: &Mk); }', "Mk", None, "pub struct Mk; impl Mk { fn mk(&self) {} }"),
    "bridge": ("BRIDGE", "mk", "fn p() { ffi::mk() }", ""),
    "bridge_before": ("BRIDGE_BEFORE", "mk", "fn p() { ffi::mk() }", ""),
    "enclosing_module": ("OUTER", "mk", "fn p() { o::ffi::mk() }", ""),
    "enclosing_inner": ("INNER", "mk", "fn p() { o::ffi::mk() }", ""),
}
FORMS = ["#[cfg({0})]", "#[cfg({0},)]", "#[cfg(all({0}))]", "#[cfg({0})] #[cfg(all())]", "#[cfg(any({0}, any()))]", "#[cfg(not(not({0})))]", "#[cfg(all({0}, {0},),)]"]
# two attributes on the same item
PAIRS = ["#[cfg({0})] #[cfg({1})]", "#[cfg(any({0}, any()))] #[cfg({1})]", "#[cfg(all({0}))] #[cfg(any({1}))]", "#[cfg({0})] #[allow(dead_code)] #[cfg({1})]"]


def module(name, attr):
    items, mark, probe, out = POS[name]
    out = out.replace("{C}", attr)
    b = 'unsafe extern "C++" { include!("x.h"); fn mk(); }'
    if items == "BRIDGE":
        return attr + " #[cxx::bridge] mod ffi { %s }" % b, out
    if items == "BRIDGE_BEFORE":
        return "#[cxx::bridge] %s mod ffi { %s }" % (attr, b), out
    if items == "OUTER":
        return "%s pub mod o { #[cxx::bridge] pub mod ffi { %s } }" % (attr, b), out
    if items == "INNER":
        return "pub mod o { %s #[cxx::bridge] pub mod ffi { %s } }" % (attr.replace("#[cfg", "#![cfg"), b), out
    return "#[cxx::bridge] pub mod ffi { %s }" % items.replace("{C}", attr), out


PRE = 'pub struct Al(u8); unsafe impl cxx::ExternType for Al { type Id = cxx::type_id!("Mk"); type Kind = cxx::kind::Trivial; }\n'


# blocks and items together: {C} of a block on the left, of the item in it on the right
NESTED = [('%s unsafe extern "C++" { include!("x.h"); %s fn mk(); }', "mk", "fn p() { ffi::mk() }", ""), ('%s extern "Rust" { %s fn mk(); }', "mk", None, "fn mk() {}"), ('%s extern "Rust" { %s type Mk; }', "Mk", None, "pub struct Mk;"),
          ('%s unsafe extern "C++" { include!("x.h"); %s type Mk; }', "Mk", "fn p(_: &ffi::Mk) {}", ""), ('%s struct S { k: u8, %s mk: u8 }', "mk", "fn p(x: &ffi::S) -> u8 { x.mk }", ""), ('%s enum E { K, %s Mk }', "Mk", "const P: ffi::E = ffi::E::Mk;", ""),
          ('%s unsafe extern "C++" { include!("y.h"); %s include!("mk.h"); }', "mk", None, "")]


def positions(ck, g):
    n = 0
    for i, (t, mark, probe, out) in enumerate(NESTED):
        POS["nested%d" % i] = (None, mark, probe, out)
    for env in itertools.product((True, False), repeat=2):
        flags = [x for a, v in zip("ac", env) if v for x in ("--cfg", a)]
        conf = "*\n" + "\n".join(a for a, v in zip("ac", env) if v)
        cases = []   # (position, attribute text, truth)
        for name in [p for p in POS if not p.startswith("nested")]:
            for f in FORMS:
                if env[1]:
                    cases.append((name, f.format("a"), env[0]))
            for f in ck.pick(PAIRS[:2], PAIRS):
                if name != "enclosing_inner":
                    cases.append((name, f.format("a", "c"), env[0] and env[1]))
        for i, (t, mark, probe, out) in enumerate(NESTED):
            for l, r in (("#[cfg(a)]", "#[cfg(c)]"), ("#[cfg(any(a))]", "#[cfg(c)]"), ("#[cfg(all(a))]", "#[cfg(any(c))]")):
                cases.append(("nested%d" % i, "#[cxx::bridge] pub mod ffi { %s }" % (t % (l, r)), env[0] and env[1]))
        mods = [(c[1], POS[c[0]][3]) if c[0].startswith("nested") else module(c[0], c[1]) for c in cases]
        # the generator
        for (name, attr, truth), (m, out), r in zip(cases, mods, g.batch([(m, conf, "", "") for m, out in mods])):
            ck.count("evaluations")
            n += 1
            key = "cxx:%s" % name
            if not r.ok:
                # a file whose only bridge is left out may be an error
                if name in ("bridge", "bridge_before", "enclosing_module", "enclosing_inner") and not truth and r.st == 1:
                    continue
                ck.violation("%s: %s with a=%s c=%s: %s" % (name, attr, env[0], env[1], r.err[:300]), m + "\n" + r.err, key=key)
                continue
            mark = POS[name][1]
            if mark:
                has = mark in words(r) or re.search(r"cxxbridge1\$%s\$" % mark, r.cc) is not None
                if has != truth:
                    ck.violation("%s: %s with a=%s c=%s: %s in the generated C++, expected it %s" % (name, attr, env[0], env[1], "present" if has else "absent", "present" if truth else "absent"), m + "\n" + r.header + r.cc, key=key)
        # the macro: without the probe always accepted, with it exactly if the item is there
        probes = [(i, False) for i in range(len(cases))] + [(i, True) for i in range(len(cases)) if POS[cases[i][0]][2]]
        res = g.verdicts(["%s\n%s\n%s" % (mods[i][0], mods[i][1], POS[cases[i][0]][2] if pr else "") for i, pr in probes], PRE, "p%d%d" % env, per=150, args=flags)
        plain = {}
        for (i, pr), v in zip(probes, res):
            name, attr, truth = cases[i]
            ck.count("evaluations")
            if not pr:
                plain[i] = not v
                if v:
                    ck.violation("%s: %s with a=%s c=%s does not compile in Rust: %s" % (name, attr, env[0], env[1], v[0][:200]), mods[i][0] + "\n" + "\n".join(v), key=None if truth else "rust-off:%s" % name)
            elif plain[i] and (not v) != truth:
                ck.violation("%s: %s with a=%s c=%s: the item is %s in Rust" % (name, attr, env[0], env[1], "absent" if v else "present"), mods[i][0] + "\n".join(v), key="probe:%s" % name)
        ck.log("positions with a=%s c=%s" % env)
    return n


# ---- forms of the attribute -------------------------------------------------------
ODD = ["", "()", " = \"a\"", "(a b)", "(a, c)", "(\"a\")", "(a = 1)", "(a = true)", "(a = 'x')", "(a = b\"x\")", "(b = r\"x\")", "(b = r#\"x\"#)", "(b = \"\\x78\")", "(a::b)", "(not)", "(all)", "(any)", "(all = \"x\")", "(not())", "(not(a, c))", "(not(a,))", "(nor(a))", "(a())", "(a(c))",
       "(r#a)", "(all(a c))", "(all(,))", "(all(a,,c))", "(any(a,))", "(!a)", "(a && c)", "(a | c)", "(version(\"1.0\"))", "(b = concat!(\"x\"))", "(b == \"x\")", "(b, = \"x\")", "(all(a), )", "(self)", "(if)", "(_)"]
SIMPLE = {"(r#a)", "(b = r\"x\")", "(b = r#\"x\"#)", "(b = \"\\x78\")", "(not(a,))", "(any(a,))", "(all(a), )"}


def odd(ck, g):
    """Unusual spellings: never another answer than rustc's, and an error where rustc has one."""
    for env in ((True, True), (False, False)):
        flags = sum((["--cfg", a] for a, v in zip(["a", 'b="x"'], env) if v), [])
        conf = "*\n" + "\n".join(a for a, v in zip(["a", "b=x"], env) if v)
        srcs = ["#[cxx::bridge]\nmod ffi { unsafe extern \"C++\" { include!(\"x.h\"); #[cfg%s] fn mk(); fn other(); } }" % o for o in ODD]
        tw = g.verdicts(["#[cfg%s] pub fn mk() {}\npub fn p() { mk() }" % o for o in ODD], "", "odp%d" % env[0], args=flags)
        te = g.verdicts(["#[cfg%s] pub fn mk() {}" % o for o in ODD], "", "ode%d" % env[0], args=flags)
        for o, r, p, e in zip(ODD, g.batch([(s, conf, "", "") for s in srcs]), tw, te):
            ck.count("evaluations")
            has = r.ok and "mk" in words(r)
            if r.st > 1:
                ck.violation("#[cfg%s]: %s %s" % (o, gk.STATUS[r.st], r.err[:200]), r.err)
            elif r.ok and e:
                ck.violation("#[cfg%s]: accepted (%s) where rustc says %s" % (o, "kept" if has else "dropped", e[0][:150]), o, key="odd:cfg%s" % o.replace(" ", ""))
            elif r.ok and has == bool(p):
                ck.violation("#[cfg%s]: %s where rustc %s" % (o, "kept" if has else "dropped", "drops it" if p else "keeps it"), o, key="odd:cfg%s" % o.replace(" ", ""))
            elif not r.ok and o in SIMPLE:
                ck.violation("#[cfg%s]: %s" % (o, r.err[:200]), o, key="odd:cfg%s" % o.replace(" ", ""))


# ---- the command line ----------------------------------------------------------------
def command_line(ck, g, exe):
    """--cfg flags: name, name=true, name=false, name="v", in all combinations of up to three."""
    flags = ["a", "a=true", "a=false", "c=false", "c", 'b="x"', 'b="y"', 'feature="f"', 'feature="g"', "b=true", 'b = "x"']
    atoms = [("a", None), ("c", None), ("b", "x"), ("feature", "f"), ("b", None)]
    exprs = [("atom", i) for i in range(5)] + [("not", ("atom", 0)), ("not", ("atom", 2)), ("all", (("atom", 0), ("atom", 1))), ("any", (("atom", 0), ("atom", 2))), ("any", (("atom", 3), ("not", ("atom", 1)))), ("all", (("atom", 4), ("atom", 2)))]
    d = os.path.join(ck.work, "cli")
    for i, e in enumerate(exprs):
        gk.write(os.path.join(d, "e%d.rs" % i), "#[cxx::bridge]\nmod ffi { extern \"Rust\" { #[cfg(%s)] fn marked(); fn other(); } }" % text(e, atoms))
    sets = [c for k in range(ck.pick(3, 4)) for c in itertools.product(flags, repeat=k)]
    table = {}

    def meaning(fl):
        """What each atom is: True, False, None; or an error."""
        vals = {}
        for f in fl:
            n, _, v = f.replace(" ", "").partition("=")
            vals.setdefault(n, set()).add({"": "true"}.get(v, v))
        if any({"true", "false"} <= v for v in vals.values()):
            return "error"
        out = []
        for n, v in atoms:
            s = vals.get(n)
            if v is not None:
                out.append(('"%s"' % v) in s if s is not None else (False if n == "feature" else None))
            else:
                out.append(True if s and "true" in s else False if s and "false" in s else None)
        return out

    def one(a):
        fl, i = a
        cmd = [exe, os.path.join(d, "e%d.rs" % i)] + [x for f in fl for x in ("--cfg", f)]
        return vk.run(cmd, timeout=60)
    jobs = [(fl, i) for fl in sets for i in range(len(exprs))]
    with vk.pool() as p:
        res = list(p.map(one, jobs, chunksize=64) if False else p.map(one, jobs))
    for (fl, i), (rc, so, se) in zip(jobs, res):
        ck.count("evaluations")
        m = meaning(fl)
        e = exprs[i]
        has = "marked" in so
        what = None
        if rc not in (0, 1, 2):
            what = vk.describe_exit(rc, se)
        elif m == "error":
            if rc == 0:
                what = "accepted contradicting flags"
        else:
            k, c = kleene(e, m), completions(e, m)
            if rc == 0 and (len(c) == 2 or has not in c):
                what = "item %s" % ("kept" if has else "dropped")
            elif rc and k is not None:
                what = "error: " + se[-300:]
            elif rc and so:
                what = "an error and also output"
        if what:
            t = "%s cfg(%s)" % (" ".join("--cfg '%s'" % f for f in fl), text(e, atoms))
            ck.violation("cxxbridge %s: %s" % (t, what), t + "\n" + so[-2000:] + se, key="cli:" + t.replace(" ", ""))
    ck.count("command_lines", len(jobs))


# ---- Cargo -----------------------------------------------------------------------------
FEATURES = ["plain", "with-dash", "with_underscore", "Upper", "d0t.ted"]
CARGO_EXPRS = ['feature = "%s"' % f for f in FEATURES + ["absent", "with_dash_not", "default"]] + [
    "unix", "windows", "debug_assertions", 'target_os = "linux"', 'target_os = "windows"', 'target_family = "unix"', 'target_family = "wasm"', 'target_arch = "x86_64"', 'target_pointer_width = "64"', 'target_pointer_width = "32"', 'target_endian = "little"',
    'target_env = "gnu"', 'target_env = "musl"', 'target_feature = "sse2"', 'target_feature = "sse"', 'target_feature = "avx512f"', 'target_feature = "sse3"', 'target_has_atomic = "8"', 'target_has_atomic = "64"', 'target_has_atomic = "128"', 'target_vendor = "unknown"', 'panic = "unwind"', 'panic = "abort"',
    "custom_flag", 'custom_key = "one"', 'custom_key = "two"', 'custom_key = "three"', 'custom_key = "on"', "absent_flag", 'absent_key = "x"', "miri", "doc",
    'all(unix, feature = "plain")', 'any(windows, feature = "with-dash")', 'not(feature = "with_underscore")', 'all(not(test), windows)', 'any(test, unix)', 'all(feature = "Upper", any(custom_flag, windows))', 'not(any(feature = "absent", not(custom_key = "two")))']
UNDET = ["test", "not(test)", "all(test, unix)", "any(test, windows)", 'feature', "any(windows, feature)"]


def cargo(ck, g, fe):
    """A real Cargo project says what is true and what a build script's environment is."""
    d = os.path.join(ck.work, "cargo")
    # a feature only by its exact name; names that differ only in case or in - and _ cannot be told apart by a build script
    gk.write(os.path.join(d, "Cargo.toml"), "[package]\nname = \"p\"\nversion = \"0.0.0\"\nedition = \"2021\"\nbuild = \"build.rs\"\n[features]\n%s\n[workspace]\n" % "\n".join('"%s" = []' % f for f in FEATURES))
    gk.write(os.path.join(d, "build.rs"), 'use std::io::Write; fn main() { let mut f = std::fs::File::create(std::env::var("DUMP").unwrap()).unwrap(); for (k, v) in std::env::vars() { if k.starts_with("CARGO_") { write!(f, "{}={}\\0", k, v).unwrap(); } } println!("cargo:rerun-if-env-changed=DUMP"); }')
    gk.write(os.path.join(d, "src/main.rs"), "#![allow(warnings)]\nfn main() { for b in [%s] { print!(\"{}\", b as u8); } }" % ", ".join("cfg!(%s)" % e for e in CARGO_EXPRS))
    brs = []
    for i, e in enumerate(CARGO_EXPRS + UNDET):
        brs.append(gk.write(os.path.join(d, "b", "x%d.rs" % i), "#[cxx::bridge]\nmod ffi { extern \"Rust\" { #[cfg(%s)] fn marked(); fn other(); } }" % e))
    allb = gk.write(os.path.join(d, "b", "all.rs"), "#[cxx::bridge]\nmod ffi { extern \"Rust\" { %s } }" % "\n".join("#[cfg(%s)] fn f%d();" % (e, i) for i, e in enumerate(CARGO_EXPRS)))
    subsets = [s for k in range(len(FEATURES) + 1) for s in itertools.combinations(FEATURES, k)]
    profiles = [[]] + ([] if ck.quick else [["--release"]])
    n = 0
    for j, (s, prof) in enumerate(itertools.product(ck.pick([x for x in subsets if len(x) in (0, 1, 4, 5)], subsets), profiles)):
        e = vk.base_env()
        e.update(DUMP=os.path.join(d, "dump%d" % j), RUSTFLAGS='--cfg custom_flag --cfg custom_key="one" --cfg custom_key="two"', CARGO_TARGET_DIR=os.path.join(d, "target"))
        rc, so, se = vk.run(["cargo", "run", "--offline", "-q", "--features", ",".join(s)] + prof, env=e, cwd=d, timeout=300)
        if rc:
            raise vk.Violation("the Cargo project does not run: " + se[-500:], se)
        tab = [c == "1" for c in so]
        env = dict(x.split("=", 1) for x in open(e["DUMP"]).read().split("\0") if x)
        be = vk.base_env()
        be.update(env)
        out = os.path.join(d, "out%d" % j)
        os.makedirs(out)
        be.update(OUT_DIR=out, CARGO_TARGET_DIR=os.path.join(d, "ct"), CARGO_PKG_NAME="p", CARGO_MANIFEST_DIR=d)
        rc, so, se = vk.run([fe, "bridge=b/all.rs"], env=be, cwd=d, timeout=60)
        if rc:
            ck.violation("cxx-build with features %s: %s" % (s, se[-400:]), se)
            continue
        cc = open(os.path.join(out, "cxxbridge/sources/p/b/all.rs.cc")).read()
        w = set(re.findall(r"\bf\d+\b", cc))
        for i, (x, t) in enumerate(zip(CARGO_EXPRS, tab)):
            ck.count("evaluations")
            n += 1
            if x == "debug_assertions":
                continue   # of the build script, see the assumptions
            if ("f%d" % i in w) != t:
                ck.violation("cxx-build: cfg(%s) with features %s is %s in C++ and %s in Rust" % (x, ",".join(s) or "none", not t, t), x, key="cargo:%s" % x.replace(" ", ""))
        if j == 0:
            for i, x in enumerate(UNDET):
                rc, so, se = vk.run([fe, "bridge=b/x%d.rs" % (len(CARGO_EXPRS) + i)], env=be, cwd=d, timeout=60)
                ck.count("evaluations")
                if rc != 1:
                    ck.violation("cxx-build: cfg(%s) cannot be decided but the build script ends with %s" % (x, rc), se, key="cargo:%s" % x.replace(" ", ""))
    ck.count("cargo_configurations", n)


def run(ck):
    g = gk.Gen(ck)
    cli = gk.build_cli(ck)
    fe = os.path.join(vk.cargo_build(ck, "fe", what="the build script"), "fe")
    n = logic(ck, g)
    ck.log("logic")
    n += positions(ck, g)
    odd(ck, g)
    ck.log("odd")
    command_line(ck, g, cli)
    ck.log("command line")
    cargo(ck, g, fe)
    ck.cov["states"] = n
    ck.cov["transitions"] = ck.cov["evaluations"]
    ck.cov["traces_validated_against_impl"] = ck.cov["evaluations"]
    ck.cov["rule"] = "every expression over 3 atoms to the stated depth x every true/false/undetermined configuration; every position x attribute form x configuration in generator and rustc; every list of --cfg flags to the stated length x expressions; real Cargo feature sets x expressions"
    ck.cov["samples"] = ["cfg(%s)" % text(e) for e in expressions(ck)[::997]][:8] + sorted(POS)[:6]
    ck.assumptions += ["three-valued (Kleene) reading of 'unless the rest of the expression already decides it', with any answer all completions agree on also allowed",
                       "features whose names differ only in case or in '-' and '_', and cfg(name) for a key that only has values, cannot be told apart in a build script's environment",
                       "debug_assertions is that of the build script"]
