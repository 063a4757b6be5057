#!/usr/bin/env python3
"""Generates /verif/harness/r/src/gen/*.rs: derived structs over a grid of
settings, each with a reference model of what its builder must do (written from
the documentation) and a harness whose values and call histories are symbolic.
The settings are concrete; everything a caller passes or does is symbolic."""
import itertools, os, zlib

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "r", "src", "gen")

# type key -> rust type, expression for a symbolic value, the value in a trace
TY = {
    "u": ("u32", 'any_u32("v")'),
    "n": ("N", 'N(any_u32("v"))'),
    "c": ("Cp", 'Cp(any_u32("v"))'),
    "on": ("Option<N>", 'if flag("some") { Some(N(any_u32("v"))) } else { None }'),
    "oc": ("Option<Cp>", 'if flag("some") { Some(Cp(any_u32("v"))) } else { None }'),
    "On": ("::std::option::Option<N>", 'if flag("some") { Some(N(any_u32("v"))) } else { None }'),
    "cn": ("core::option::Option<N>", 'if flag("some") { Some(N(any_u32("v"))) } else { None }'),
    "oon": ("Option<Option<N>>", 'match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }'),
    "ooc": ("Option<Option<Cp>>", 'match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }'),
    "vn": ("Vec<N>", 'match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }'),
    "ovn": ("Option<Vec<N>>", 'match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }'),
    "coll": ("Coll", 'Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }'),
    "ocoll": ("Option<Coll>", 'if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }'),
    "s": ("String", 'String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()'),
    "t": ("(u8, u16)", '(any_u8("t0"), any_u16("t1"))'),
}
INNER = {"on": "n", "oc": "c", "On": "n", "cn": "n", "oon": "on", "ooc": "oc", "ovn": "vn", "ocoll": "coll"}
COPY = {"u", "c", "oc", "ooc", "coll", "ocoll", "t"}
# into conversions: T <- U : (symbolic U expression bound to `x`, rust model of T given x, conversions)
INTO = {
    "u": [('any_u16("x")', "x as u32", 0)],
    "n": [('any_u8("x")', "N(n_of_u8(x))", 1)],
    "c": [('any_u8("x")', "Cp(n_of_u8(x))", 1)],
    "on": [('N(any_u32("x"))', "Some(x.clone())", 0)],
    "oc": [('Cp(any_u32("x"))', "Some(x)", 0)],
    "On": [('N(any_u32("x"))', "Some(x.clone())", 0)],
    "cn": [('N(any_u32("x"))', "Some(x.clone())", 0)],
    "oon": [('Some(N(any_u32("x")))', "Some(x.clone())", 0)],
    "ooc": [('Some(Cp(any_u32("x")))', "Some(x)", 0)],
    "vn": [('[N(any_u32("x")), N(3)]', "vec![x[0].clone(), N(3)]", 0)],
    "ovn": [('vec![N(any_u32("x"))]', "Some(x.clone())", 0)],
    "s": [('if flag("x") { "ab" } else { "" }', "String::from(x)", 0)],
}
# fallible conversions: T <- U : (U expr, model: Result<T, error-check>, conversions)
TRY = {
    "u": [('any_u64("x")', 'if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }', "|_e, _x| true", 0)],
    "n": [('any_u16("x")', 'match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }', "|e: Bad, x| e == Bad(x)", 1)],
    "c": [('any_u16("x")', 'match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }', "|e: Bad, x| e == Bad(x)", 1)],
    "on": [('N(any_u32("x"))', "Ok::<_, ()>(Some(x.clone()))", "|_e, _x| false", 0)],
    "oc": [('Cp(any_u32("x"))', "Ok::<_, ()>(Some(x))", "|_e, _x| false", 0)],
    "On": [('N(any_u32("x"))', "Ok::<_, ()>(Some(x.clone()))", "|_e, _x| false", 0)],
    "vn": [('[N(any_u32("x")), N(3)]', "Ok::<_, ()>(vec![x[0].clone(), N(3)])", "|_e, _x| false", 0)],
}


class F:
    def __init__(self, n, ty, pat=None, setter=None, word=False, tri=False, default=None, fty=None, build=None,
                 fvis=None, user=None, vis=None):
        self.n, self.ty, self.pat, self.setter, self.word, self.tri = n, ty, pat, dict(setter or {}), word, tri
        self.default = default      # None | "word" | (attr tokens, model expr over m)
        self.fty = fty              # type key of a custom builder field
        self.build = build          # (attr tokens, model expr over m)
        self.fvis, self.vis = fvis, vis
        self.user = user            # hand-written setter: field set through the slot

    def ident(self):
        return self.n


class S:
    def __init__(self, pat, fields, setter=None, tri=False, default=None, opts="", target="S", ctor="SBuilder::default()",
                 bld="build", builder="SBuilder"):
        self.pat, self.f, self.setter, self.tri, self.default, self.opts = pat, fields, dict(setter or {}), tri, default, opts
        self.ctor, self.bld, self.builder = ctor, bld, builder

    # --- documented resolution of settings ---
    def spat(self):
        return self.pat or "mutable"

    def epat(self, f):
        return f.pat or self.spat()

    def into(self, f):
        v = f.setter.get("into")
        return bool(self.setter.get("into")) if v is None else v

    def strip(self, f):
        v = f.setter.get("strip_option")
        return bool(self.setter.get("strip_option")) if v is None else v

    def enabled(self, f):
        if f.setter.get("skip") is not None:
            return not f.setter["skip"]
        if f.word or any(k in f.setter for k in ("prefix", "name", "into", "strip_option", "each")) or f.setter.get("custom") is False:
            return True
        return not self.setter.get("skip", False)

    def has_setter(self, f):
        return self.enabled(f) and not f.setter.get("custom", False)

    def name(self, f):
        if "name" in f.setter:
            return f.setter["name"]
        p = f.setter.get("prefix", self.setter.get("prefix"))
        base = f.n[2:] if f.n.startswith("r#") and p else f.n
        return f"{p}_{base}" if p else f.n

    def has_try(self, f):
        return self.has_setter(f) and (f.tri or self.tri)


def meta(d):
    out = []
    for k, v in d.items():
        if k in ("prefix", "name"):
            out.append(f'{k} = "{v}"')
        elif k == "each":
            if v[1] is None:
                out.append(f'each = "{v[0]}"')
            elif v[1]:
                out.append(f'each(name = "{v[0]}", into)')
            else:
                out.append(f'each(name = "{v[0]}")')
        elif v is True:
            out.append(k)
        else:
            out.append(f"{k} = false")
    return ", ".join(out)


def emit(i, s, k, slots=True, twice=True, derive=False):
    """One struct + model + harness module."""
    o = []
    w = o.append
    w(f"pub mod s{i} {{\n    use super::*;")
    a = []
    if s.pat:
        a.append(f'pattern = "{s.pat}"')
    if s.setter:
        a.append(f"setter({meta(s.setter)})")
    if s.tri:
        a.append("try_setter")
    if s.default == "word":
        a.append("default")
    elif s.default:
        a.append(s.default[0])
    if s.opts:
        a.append(s.opts)
    if derive:
        a.append("derive(PartialEq, Debug)")
    w(f"    #[derive(Builder, Clone, Debug, PartialEq{', Default' if s.default == 'word' else ''})]")
    if a:
        w(f"    #[builder({', '.join(a)})]")
    w("    pub struct S {")
    for f in s.f:
        fa = []
        if f.pat:
            fa.append(f'pattern = "{f.pat}"')
        if f.setter:
            fa.append(f"setter({meta(f.setter)})")
        elif f.word:
            fa.append("setter")
        if f.tri:
            fa.append("try_setter")
        if f.default == "word":
            fa.append("default")
        elif f.default:
            fa.append(f.default[0])
        fm = []
        if f.fty:
            fm.append(f'ty = "{TY[f.fty][0]}"')
        if f.build:
            fm.append(f.build[0])
        if f.fvis:
            fm.append(f.fvis)
        if fm:
            fa.append(f"field({', '.join(fm)})")
        if f.vis:
            fa.append(f.vis)
        if fa:
            w(f"        #[builder({', '.join(fa)})]")
        w(f"        pub {f.n}: {TY[f.ty][0]},")
    w("    }")
    # --- model ---
    w("    #[derive(Clone)]\n    pub struct M {")
    for f in s.f:
        if s.enabled(f):
            t = TY[f.fty][0] if f.fty else f"Option<{TY[f.ty][0]}>"
            w(f"        pub {f.n}: {t},")
    w("        pub zz_: (),\n    }")
    w("    pub fn empty() -> M {\n        M {")
    for f in s.f:
        if s.enabled(f):
            w(f"            {f.n}: Default::default(),")
    w("            zz_: (),\n        }\n    }")
    w("    /// What the documentation says a build of `m` gives.")
    w("    pub fn expect(m: &M) -> Result<S, &'static str> {\n        let _ = m;")
    if s.default == "word":
        w("        let dflt: S = Default::default();")
    elif s.default:
        w(f"        let dflt: S = {s.default[1]};")
    if s.default:
        w("        let _ = &dflt;")
    w("        Ok(S {")
    for f in s.f:
        if f.default == "word":
            d = "Default::default()"
        elif f.default:
            d = f.default[1]
        elif s.default:
            d = f"dflt.{f.n}.clone()"
        else:
            d = None
        if not s.enabled(f):
            e = d or "Default::default()"
        elif f.build:
            e = f.build[1]
        elif f.fty:
            e = f"m.{f.n}.clone()"
        else:
            e = f"match m.{f.n}.clone() {{ Some(v) => v, None => {d if d else chr(123) + ' return Err(' + chr(34) + f.n + chr(34) + ') ' + chr(125)} }}"
        w(f"            {f.n}: {e},")
    w("        })\n    }")
    # --- checks ---
    w(f"    pub fn verify(b: {'' if s.spat() == 'owned' else '&'}{s.builder}, m: &M) {{")
    w(f"        match (b.{s.bld}(), expect(m)) {{")
    w("            (Ok(got), Ok(want)) => {\n                reach(1);")
    for j, f in enumerate(s.f):
        w(f"                check(got.{f.n} == want.{f.n}, {100 + j});")
    w("            }")
    w(f"            (Err({s.builder}Error::UninitializedField(got)), Err(want)) => {{\n                reach(2);\n                check(got == want, 90);\n            }}")
    w("            (Err(_), _) => fail(\"build failed although every required field is set, or with the wrong error\"),")
    w("            (Ok(_), Err(_)) => fail(\"build succeeded although a required field is unset\"),\n        }\n    }")
    if slots:
        w(f"    pub fn slots(b: &{s.builder}, m: &M) {{\n        let _ = (b, m);")
        for j, f in enumerate(s.f):
            if s.enabled(f):
                w(f"        check(b.{f.n} == m.{f.n}, {200 + j});")
        w("    }")
    # --- operations ---
    ops = []
    for f in s.f:
        if not s.enabled(f):
            continue
        p = s.epat(f)
        slot = (lambda e: e) if f.fty else (lambda e: f"Some({e})")
        vt = f.fty or f.ty          # the type a plain setter takes
        at, wrap = vt, (lambda e: e)
        if s.strip(f) and vt in INNER:
            at, wrap = INNER[vt], (lambda e: f"Some({e})")
        st = lambda e: slot(wrap(e))
        if not s.has_setter(f):
            if f.user:
                call = f"b.{f.user}(x.clone());" if p == "mutable" else f"b = b.{f.user}(x.clone());"
                ops.append(f"{{ let x: {TY[vt][0]} = {TY[vt][1]}; {call} m.{f.n} = {slot('x')}; }}")
            continue
        nm = s.name(f)

        def call(arg, meth, newval, pre=""):
            if p == "mutable":
                c = f"let _: &mut {s.builder} = b.{meth}({arg});"
            elif p == "owned":
                c = f"b = b.{meth}({arg});"
            else:
                if slots:
                    c = f"let nb: {s.builder} = b.{meth}({arg}); slots(&b, &m); b = nb;"
                else:
                    c = f"let nb: {s.builder} = b.{meth}({arg}); b = nb;"
            return f"{{ {pre} {c} {newval} }}"
        ops.append(call("x.clone()", nm, f"m.{f.n} = {st('x')};", f"let x: {TY[at][0]} = {TY[at][1]};"))
        if s.into(f):
            for ue, me, cv in INTO.get(at, []):
                ops.append(call("x.clone()", nm, f"m.{f.n} = {st('xm')}; check(convs() == c0 + {cv}, 80);",
                                f"let x = {ue}; let xm: {TY[at][0]} = {me}; let c0 = convs();"))
        if s.has_try(f):
            for ue, me, ck, cv in TRY.get(at, []):
                tn = "try_" + (nm[2:] if nm.startswith("r#") else nm)
                pre = f"let x = {ue}; let xm: Result<{TY[at][0]}, ()> = {me}; let c0 = convs();"
                post = f"check(convs() == c0 + {cv}, 81);"
                err = f"fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool {{ f(e, x) }} check(xm.is_err(), 82); check(ck({ck}, e, x), 83); reach(4);"
                ok = f"reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm {{ m.{f.n} = {st('v')}; }}"
                if p == "mutable":
                    ops.append(f"{{ {pre} match b.{tn}(x.clone()) {{ Ok(_) => {{ {ok} }} Err(e) => {{ {err} }} }} {post} }}")
                elif p == "owned":
                    ops.append(f"{{ {pre} match b.{tn}(x.clone()) {{ Ok(nb) => {{ b = nb; {ok} }} Err(e) => {{ {err} return; }} }} {post} }}")
                else:
                    ops.append(f"{{ {pre} let r = b.{tn}(x.clone()); {'slots(&b, &m);' if slots else ''} match r {{ Ok(nb) => {{ b = nb; {ok} }} Err(e) => {{ {err} }} }} {post} }}")
        if "each" in f.setter:
            en, einto = f.setter["each"]
            ct = at                               # the collection type
            if ct == "vn":
                item = ('any_u8("it")', "N(n_of_u8(x))", 1) if einto else ('N(any_u32("it"))', "x.clone()", 0)
            elif ct == "coll":
                item = ('any_u8("it")', "Cp(n_of_u8(x))", 1) if einto else ('Cp(any_u32("it"))', "x", 0)
            else:
                raise Exception("each on " + ct)
            push = "c.push(xm.0);" if ct == "coll" else "c.push(xm.clone());"
            inner = f"Option::get_or_insert_with(&mut m.{f.n}, Default::default)"
            if ct != vt:
                inner = f"(m.{f.n}.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default))"
            it = "Cp" if ct == "coll" else "N"
            ops.append(call("x.clone()", en, f"{{ let c: &mut {TY[ct][0]} = {inner}; {push} }} check(convs() == c0 + {item[2]}, 85);",
                            f"let x = {item[0]}; let xm: {it} = {item[1]}; let c0 = convs();"))
    ops.append("{ break; }")
    w("    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state")
    w("    /// but its slots, so one step from there covers histories of any length.")
    w("    pub fn run(k: usize, wild: bool) {")
    w(f"        let mut b: {s.builder} = {s.ctor};\n        let mut m = empty();")
    w("        if wild {")
    for f in s.f:
        if s.enabled(f):
            if f.fty:
                w(f"            let x: {TY[f.fty][0]} = {TY[f.fty][1]};")
            else:
                w(f"            let x: Option<{TY[f.ty][0]}> = if flag(\"set\") {{ Some({TY[f.ty][1]}) }} else {{ None }};")
            w(f"            b.{f.n} = x.clone(); m.{f.n} = x;")
    w("            reach(5);\n        }")
    if slots:
        w("        slots(&b, &m);")
    w("        for _ in 0..k {")
    w(f"            match below(\"op\", {len(ops)}) {{")
    for j, op in enumerate(ops):
        w(f"                {j if j < len(ops) - 1 else '_'} => {op}")
    w("            }")
    if slots:
        w("            slots(&b, &m);")
    w("        }\n        let _ = &mut m;")
    w("        let _ = &mut b;")
    if s.spat() == "owned":
        w("        verify(b, &m);")
    else:
        w("        verify(&b, &m);")
        if twice:
            w("        verify(&b, &m);")
        if slots:
            w("        slots(&b, &m);")
    w("    }\n}")
    return "\n".join(o)


def write(name, structs, k, **kw):
    """`structs`: list of S, or (S, k)."""
    out = ["// Generated by tools/genr.py; do not edit."]
    ks = []
    for i, s in enumerate(structs):
        if isinstance(s, tuple):
            s, kk = s
        else:
            kk = k
        ks.append(kk)
        out.append(emit(i, s, kk, **kw))
    out.append(f"pub const COUNT: usize = {len(structs)};")
    out.append("pub fn grid(extra: usize) {\n    reset();\n    match choice(\"cfg\", COUNT) {")
    for i, kk in enumerate(ks):
        out.append(f"        {i if i < len(ks) - 1 else '_'} => s{i}::run({kk} + extra, false),")
    out.append("    }\n}")
    out.append("pub fn step(k: usize) {\n    reset();\n    match choice(\"cfg\", COUNT) {")
    for i, kk in enumerate(ks):
        out.append(f"        {i if i < len(ks) - 1 else '_'} => s{i}::run(k, true),")
    out.append("    }\n}")
    os.makedirs(OUT, exist_ok=True)
    open(os.path.join(OUT, name + ".rs"), "w").write("\n".join(out) + "\n")
    print(name, len(structs))


PATS = ["mutable", "owned", "immutable"]


def okpat(s):
    """Reject settings that cannot compile by Rust's own rules (not the macro's):
    a by-value receiver or move out of a borrowed builder needs Copy slots."""
    for f in s.f:
        t = f.fty or f.ty
        if s.spat() != "owned" and s.enabled(f) and not f.build:
            if (s.epat(f) == "owned" or f.fty) and t not in COPY:
                return False
    return True


LIT = {"u": "7", "n": "N(7)", "c": "Cp(7)", "on": "Some(N(7))", "oc": "Some(Cp(7))", "On": "None", "cn": "Some(N(8))", "oon": "Some(None)",
       "ooc": "Some(Some(Cp(7)))", "vn": "vec![N(7)]", "ovn": "Some(vec![N(7)])", "coll": "Coll { items: [7; 6], len: 1, origin: 7 }",
       "ocoll": "None", "s": 'String::from(\\"lit\\")', "t": "(7, 8)"}
NAMES = ["a", "b", "value", "new", "converted", "item", "_under", "x1", "Upper", "r#type", "r#fn", "build_", "self_", "build_with", "wh",
         "try_it", "default_", "z9_", "__x", "core", "std", "err", "result", "f"]


def mix(focus, n, seed):
    """Structs with every option drawn at random (fixed seed), the focused feature on the first field."""
    import random
    r = random.Random(seed * 1000 + sum(map(ord, focus)))
    L = []
    while len(L) < n:
        p = r.choice([None, "mutable", "owned", "owned", "immutable"])
        st, opts = {}, []
        if r.random() < .3:
            st["prefix"] = r.choice(["with", "set"])
        for k in ("into", "strip_option"):
            if r.random() < .35:
                st[k] = r.random() < .75
        if r.random() < .2:
            st["skip"] = r.random() < .75
        tri = r.random() < .3
        builder, ctor, bld = "SBuilder", None, "build"
        if r.random() < .2:
            builder = "Maker"
            opts.append('name = "Maker"')
        ce = "create_empty"
        if r.random() < .2:
            ce = "blank"
            opts.append('create_empty = "blank"')
        if r.random() < .3:
            opts.append("custom_constructor")
            ctor = f"{builder}::{ce}()"
        bf = []
        if r.random() < .3:
            bld = "finish"
            bf.append('name = "finish"')
        if r.random() < .2:
            bf.append("error(validation_error = false)")
        if r.random() < .2:
            bf.append(r.choice(["private", "public", 'vis = "pub(crate)"']))
        if bf:
            opts.append("build_fn(" + ", ".join(bf) + ")")
        for o in ("no_std", "private", "field(public)", 'field(vis = "pub(crate)")', "derive(Debug)"):
            if r.random() < .15 and not (o.startswith("field") and any(x.startswith("field") for x in opts)):
                opts.append(o)
        k = r.randint(2, 4)
        names = r.sample(NAMES, k)
        fs = []
        for i, nm in enumerate(names):
            fo = focus if i == 0 else r.choice(["", "", "into", "strip", "try", "each", "skip", "own", "default", "custom"])
            ty = r.choice(["u", "n", "c", "on", "oc", "On", "vn", "s", "t", "oon"])
            fst, f = {}, F(nm, ty)
            if r.random() < .35:
                f.pat = r.choice(PATS)
            for o in ("into", "strip_option"):
                if r.random() < .2:
                    fst[o] = r.random() < .6
            if r.random() < .2:
                fst["prefix"] = "put"
            if r.random() < .2:
                fst["name"] = r.choice(["assign", "give"]) + str(i)
            if r.random() < .25:
                f.tri = True
            if fo == "into":
                fst["into"] = True
            elif fo == "strip":
                fst["strip_option"] = True
                f.ty = r.choice(["on", "oc", "On", "cn", "oon", "ovn"])
            elif fo == "try":
                f.tri = True
                f.ty = r.choice(["u", "n", "c", "on", "oc", "On", "vn"])
            elif fo == "each":
                f.ty = r.choice(["vn", "coll", "ovn", "ocoll"])
                fst["each"] = ("each" + str(i), r.choice([None, True, False]))
                if f.ty in INNER:
                    fst["strip_option"] = True
                else:
                    fst.pop("strip_option", None)
            elif fo == "skip":
                fst["skip"] = r.random() < .8
            elif fo == "custom":
                fst["custom"] = r.random() < .7
            elif fo == "own":
                q = f.pat or p or "mutable"
                if r.random() < .5:
                    f.ty = f.fty = r.choice(["c", "oc", "ooc"])
                    if (p or "mutable") == "owned" and r.random() < .4:
                        f.ty = f.fty = r.choice(["n", "on", "vn", "s"])
                    if r.random() < .5:
                        f.ty = "u"
                        f.build = {"c": ('build = "self.@.0"', "m.@.0"), "n": ('build = "self.@.0"', "m.@.0")}.get(f.fty) or (f'build = "self.@.clone() == {LIT[f.fty]} as u32"', "")
                        if not f.build[1]:
                            f.build = ('build = "std::mem::size_of_val(&self.@) as u32"', "std::mem::size_of_val(&m.@) as u32")
                else:
                    f.ty = "c"
                    f.build = ('build = "self.@.unwrap_or(Cp(5))"', "m.@.unwrap_or(Cp(5))")
                if f.build:
                    f.build = tuple(x.replace("@", nm) for x in f.build)
            if fo == "default" or (not f.fty and not f.build and r.random() < .3):
                f.default = r.choice(["word", (f'default = "{LIT[f.ty]}"', LIT[f.ty].replace("\\", ""))])
            if nm.startswith("r#") and not f.default and not f.fty and not f.build:
                f.default = "word"
            f.setter = fst
            f.word = not fst and r.random() < .2
            if r.random() < .15:
                f.vis = r.choice(["public", "private", 'vis = "pub(crate)"'])
            if r.random() < .15:
                f.fvis = r.choice(["public", "private", 'vis = "pub(super)"'])
            fs.append(f)
        d = r.choice([None, None, "word", "lit"])
        if d == "lit":
            v = ", ".join(f"{f.n}: {LIT[f.ty]}" for f in fs)
            d = (f'default = "S {{ {v} }}"', "S { " + v.replace("\\", "") + " }")
        s = S(p, fs, setter=st, tri=tri, default=d, opts=", ".join(opts), builder=builder, ctor=ctor or f"{builder}::default()", bld=bld)
        # combinations that the documentation excludes or that Rust itself cannot compile
        bad = not okpat(s)
        fns = [bld, ce, "clone"]
        for f in fs:
            t = f.fty or f.ty
            if s.has_setter(f):
                nm = s.name(f)
                fns += [nm.replace("r#", "")] + (["try_" + nm.replace("r#", "")] if s.has_try(f) else []) + ([f.setter["each"][0]] if "each" in f.setter else [])
                if "each" in f.setter and s.strip(f) != (f.ty in INNER):
                    bad = True
            # a by-value setter of a field in a struct that is only borrowed is fine, but a
            # field pattern also decides whether build moves the value out
            if s.spat() != "owned" and s.epat(f) == "owned" and t not in COPY and s.enabled(f):
                bad = True
            if not s.enabled(f) and (f.fty or f.build):
                bad = True
        if len(set(fns)) != len(fns):
            bad = True
        if not bad:
            L.append(s)
    return L


def c01():
    L = []
    for p in PATS:
        L.append((S(p, [F("a", "u"), F("b", "n"), F("c", "on")]), 4))
        L.append((S(p, [F("a", "s"), F("b", "t"), F("c", "vn")]), 3))
        # neighbours of the same type: cross-talk would be visible
        L.append((S(p, [F("zz", "c"), F("a", "c"), F("m", "c"), F("r#type", "c", default="word")]), 4))
        # renamed setters, crossing the names of other fields
        L.append((S(p, [F("a", "u", setter={"name": "b"}), F("b", "u", setter={"name": "a"}), F("c", "u", setter={"prefix": "set"})]), 4))
        L.append((S(p, [F("a", "u"), F("b", "u", setter={"prefix": "put"}), F("c", "n", setter={"name": "sea"})], setter={"prefix": "with"}), 4))
    # field-level pattern overrides
    for p in PATS:
        for q1, q2 in itertools.product(PATS, PATS):
            if (q1, q2) == (p, p):
                continue
            L.append((S(p, [F("a", "c", pat=q1), F("b", "c", pat=q2), F("d", "u")]), 3))
    for p in PATS:
        for q in PATS:
            L.append((S(p, [F("a", "c", pat=q, setter={"into": True}), F("b", "oc", pat=q, setter={"strip_option": True}), F("d", "u", default="word")]), 3))
    L.append((S(None, [F("a", "u"), F("b", "n")]), 4))
    # many fields
    for p in PATS:
        L.append((S(p, [F(x, "c") for x in ("f1", "f0", "f2", "f9", "f10", "e")]), 3))
    write("c01", [x for x in L if okpat(x[0])], 3)


def c02():
    L = []
    DE = ("default = \"N(77)\"", "N(77)")
    for p in PATS:
        # names in non-alphabetic order; renamed setters must not change the reported name
        L.append((S(p, [F("z", "n"), F("d", "n", default=DE), F("b", "on"), F("a", "u", setter={"name": "z2"}), F("y", "c")]), 4))
        L.append((S(p, [F("q", "u", setter={"skip": True}), F("b", "c"), F("a", "c", default="word"), F("c0", "c", fty="c"), F("a2", "oc", setter={"strip_option": True})]), 4))
        L.append((S(p, [F("v", "vn", setter={"each": ("item", None)}), F("w", "n", setter={"into": True}), F("t", "u", setter={"prefix": "set"})]), 3))
        L.append((S(p, [F("d", "n", default=DE), F("last", "u")]), 2))
        L.append((S(p, [F("first", "u"), F("d", "n", default="word"), F("e", "on", default="word")]), 2))
        # struct-level default: nothing is required
        L.append((S(p, [F("a", "n"), F("b", "u"), F("c", "on", default="word")], default=("default = \"S { a: N(1), b: 2, c: Some(N(3)) }\"", "S { a: N(1), b: 2, c: Some(N(3)) }")), 3))
        L.append((S(p, [F("a", "n"), F("b", "u"), F("c", "on")], default="word"), 3))
        L.append((S(p, [F("a", "n", tri=True), F("b", "u", tri=True)]), 3))
        L.append((S(p, [F("a", "n", build=("build = \"N(5)\"", "N(5)")), F("b", "u"), F("k", "c")]), 3))
        L.append((S(p, [F("a", "on"), F("b", "on", setter={"strip_option": True}), F("c", "oon", setter={"strip_option": True})]), 3))
        for q in PATS:
            if q != p:
                L.append((S(p, [F("b", "c", pat=q), F("a", "c", pat=q, default="word"), F("c", "c", pat=q)]), 3))
        # skipped everything but opted-in fields
        L.append((S(p, [F("b", "c", word=True), F("a", "c"), F("k", "c", setter={"into": True}), F("c", "on", setter={"skip": False})], setter={"skip": True}), 3))
    write("c02", [x for x in L if okpat(x[0])], 3)


def c03():
    L = []
    ND = ("default = \"N(77)\"", "N(77)")
    NB = ("default = N(78)", "N(78)")
    OD = ("default = \"Some(N(5))\"", "Some(N(5))")
    UD = ("default = \"self.b.map(|x| x.wrapping_add(1)).unwrap_or(9)\"", "m.b.map(|x| x.wrapping_add(1)).unwrap_or(9)")
    SD = lambda fs: ("default = \"S { %s }\"" % fs, "S { %s }" % fs)
    for p in PATS:
        # the set value wins even when it equals a default value
        L.append((S(p, [F("a", "n", default=ND), F("b", "u", default="word"), F("c", "on", default=OD)]), 3))
        L.append((S(p, [F("a", "n", default=NB), F("b", "u", default=("default = 3 + 4", "7")), F("c", "on", default="word")]), 3))
        # a default reading another field of the builder
        L.append((S(p, [F("b", "u", default=("default = 4", "4")), F("a", "u", default=UD)]), 3))
        L.append((S(p, [F("a", "u", default=UD), F("b", "u")]), 3) if p != "owned" else (S(p, [F("a", "u", default=UD), F("b", "u")]), 3))
        # all combinations of field-level and struct-level defaults
        for da, db in itertools.product([None, "word", ND], [None, "word", ("default = \"21\"", "21")]):
            for sd in [None, "word", SD("a: N(1), b: 2, c: Some(N(3))")]:
                L.append((S(p, [F("a", "n", default=da), F("b", "u", default=db), F("c", "on")], default=sd), 2))
        # struct default through a block with statements
        L.append((S(p, [F("a", "n"), F("b", "u", default=("default = \"let x = 20; x + 1\"", "21"))],
                   default=("default = \"let v = 40; S { a: N(v), b: v }\"", "S { a: N(40), b: 40 }")), 2))
        # defaults with skipped, custom typed, built and into/strip fields
        L.append((S(p, [F("a", "n", setter={"skip": True}, default=ND), F("b", "u", setter={"skip": True}), F("c", "on", setter={"strip_option": True}, default=OD)],
                   default=SD("a: N(1), b: 2, c: None")), 2))
        L.append((S(p, [F("a", "c", fty="c"), F("b", "u", build=("build = \"self.b.unwrap_or(6)\"", "m.b.unwrap_or(6)")), F("c", "on", setter={"into": True})],
                   default=SD("a: Cp(1), b: 2, c: None")), 3))
        L.append((S(p, [F("a", "vn", setter={"each": ("item", None)}, default=("default = \"vec![N(1), N(2)]\"", "vec![N(1), N(2)]")), F("b", "u", tri=True, default=("default = \"8\"", "8"))]), 3))
        L.append((S(p, [F("a", "oon", setter={"strip_option": True}, default=("default = \"Some(None)\"", "Some(None)")), F("b", "oon", default=("default = \"Some(Some(N(4)))\"", "Some(Some(N(4)))"))]), 2))
        for q in PATS:
            if q != p:
                L.append((S(p, [F("a", "c", pat=q, default=("default = \"Cp(9)\"", "Cp(9)")), F("b", "c", pat=q), F("c", "oc", pat=q, default="word")],
                           default=("default = \"S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) }\"", "S { a: Cp(1), b: Cp(2), c: Some(Cp(3)) }")), 2))
    write("c03", [x for x in L if okpat(x[0])], 2)


def c04():
    L = []
    for p in ["mutable", "immutable"]:
        L.append((S(p, [F("a", "n"), F("b", "u", default=("default = 4", "4")), F("c", "on", setter={"strip_option": True})]), 3))
        L.append((S(p, [F("a", "s"), F("b", "vn", setter={"each": ("item", None)})]), 3))
        L.append((S(p, [F("a", "n", setter={"into": True}), F("b", "n", tri=True)]), 3))
        L.append((S(p, [F("a", "ovn", setter={"strip_option": True, "each": ("item", True)})]), 3))
        L.append((S(p, [F("a", "c", fty="c"), F("b", "c", build=("build = \"Cp(self.b.map(|x| x.0).unwrap_or(3))\"", "Cp(m.b.map(|x| x.0).unwrap_or(3))"))]), 3))
        L.append((S(p, [F("a", "c", tri=True, setter={"into": True}), F("b", "oc", tri=True, setter={"strip_option": True, "into": True})]), 3))
        q = "mutable" if p == "immutable" else "immutable"
        L.append((S(p, [F("a", "n", pat=q), F("b", "n"), F("c", "vn", pat=q, setter={"each": ("item", None)})]), 3))
        L.append((S(p, [F("a", "n", pat=q, tri=True), F("b", "on", pat=q, setter={"strip_option": True, "into": True}), F("c", "c", fty="c", pat=q)]), 3))
        L.append((S(p, [F("a", "n"), F("b", "u", setter={"skip": True}, default=("default = 4", "4"))], default=("default = \"S { a: N(1), b: 2 }\"", "S { a: N(1), b: 2 }")), 3))
    # an immutable field in an owned-pattern struct must still leave the builder alone
    L.append((S("owned", [F("a", "n", pat="immutable"), F("b", "n", pat="immutable", tri=True), F("c", "vn", pat="immutable", setter={"each": ("item", True)})]), 3))
    L.append((S("owned", [F("a", "on", pat="immutable", setter={"strip_option": True, "into": True}), F("b", "u", pat="immutable", setter={"into": True}), F("c", "u")]), 3))
    write("c04", [x for x in L if okpat(x[0])], 3, derive=True)


def c05():
    L = []
    B = [None, True, False]
    for p in PATS:
        for ty in ["u", "n", "c", "on", "oc", "On", "cn", "oon", "vn", "ovn", "s"]:
            for into, strip in itertools.product([None, True], [None, True]):
                st = {}
                if into is not None:
                    st["into"] = into
                if strip is not None:
                    st["strip_option"] = strip
                L.append((S(p, [F("a", ty, setter=st)]), 2))
        # custom builder field types
        for ty, into, strip in itertools.product(["c", "oc", "ooc"], [None, True], [None, True]):
            st = {}
            if into:
                st["into"] = True
            if strip:
                st["strip_option"] = True
            L.append((S(p, [F("a", ty, setter=st, fty=ty)]), 2))
            if ty != "ooc":
                bt, bm = {"c": ("self.a", "m.a"), "oc": ("self.a.unwrap_or(Cp(4))", "m.a.unwrap_or(Cp(4))")}[ty]
                L.append((S(p, [F("a", "c", setter=st, fty=ty, build=(f'build = "{bt}"', bm))]), 2))
        # inherited from the struct, overridden by the field
        for si, ss in itertools.product([True, None], [True, None]):
            for fi, fs in itertools.product(B, B):
                sst, fst = {}, {}
                if si:
                    sst["into"] = True
                if ss:
                    sst["strip_option"] = True
                if fi is not None:
                    fst["into"] = fi
                if fs is not None:
                    fst["strip_option"] = fs
                if not sst:
                    continue
                L.append((S(p, [F("a", "on", setter=fst), F("b", "n")], setter=sst), 2))
        for q in PATS:
            if q != p:
                L.append((S(p, [F("a", "oc", pat=q, setter={"into": True, "strip_option": True}), F("b", "c", pat=q, setter={"into": True}), F("d", "oc", pat=q, setter={"strip_option": True})]), 2))
    write("c05", [x for x in L if okpat(x[0])], 2)


def c06():
    L = []
    for p in PATS:
        for ty, lvl in itertools.product(["u", "n", "c", "on", "oc", "On", "vn"], ["f", "s"]):
            for strip, into in itertools.product([None, True], [None, True]):
                st = {}
                if strip:
                    st["strip_option"] = True
                if into:
                    st["into"] = True
                L.append((S(p, [F("a", ty, setter=st, tri=lvl == "f"), F("b", "c", default="word")], tri=lvl == "s"), 2))
        for ty, strip in itertools.product(["c", "oc", "ooc"], [None, True]):
            L.append((S(p, [F("a", ty, setter={"strip_option": True} if strip else {}, tri=True, fty=ty)]), 2))
        L.append((S(p, [F("a", "n", tri=True, setter={"name": "alpha"}), F("b", "n", tri=True, setter={"prefix": "set"})]), 3))
        L.append((S(p, [F("a", "n", tri=True), F("b", "n", setter={"prefix": "put"})], setter={"prefix": "with"}, tri=True), 3))
        # a failing conversion must leave everything as it was
        L.append((S(p, [F("a", "n", tri=True), F("b", "u", tri=True), F("c", "on", setter={"strip_option": True}, tri=True)]), 3))
        L.append((S(p, [F("r#type", "n", tri=True, default="word"), F("r#fn", "u", tri=True, setter={"prefix": "set"}, default="word")]), 2))
        for q in PATS:
            if q != p:
                L.append((S(p, [F("a", "c", pat=q, tri=True), F("b", "oc", pat=q, tri=True, setter={"strip_option": True})]), 3))
        L.append((S(p, [F("a", "n"), F("b", "n", setter={"skip": True}), F("c", "n", word=True)], tri=True), 2))
    write("c06", [x for x in L if okpat(x[0])], 2)


def c07():
    L = []
    for p in PATS:
        for ty in ["vn", "coll", "ovn", "ocoll"]:
            for einto, into in itertools.product([None, False, True], [None, True]):
                st = {"each": ("item", einto)}
                if ty in INNER:
                    st["strip_option"] = True
                if into:
                    if ty.endswith("coll"):
                        continue
                    st["into"] = True
                L.append((S(p, [F("a", ty, setter=st)]), 3))
        L.append((S(p, [F("a", "vn", setter={"each": ("item", None), "name": "all_items"}), F("b", "vn", setter={"each": ("push_b", True), "prefix": "set"})]), 3))
        L.append((S(p, [F("a", "vn", setter={"each": ("item", None)}, default=("default = \"vec![N(8), N(9)]\"", "vec![N(8), N(9)]")), F("b", "coll", setter={"each": ("add", True)}, default=("default = \"Coll { items: [5; 6], len: 2, origin: 9 }\"", "Coll { items: [5; 6], len: 2, origin: 9 }"))]), 3))
        L.append((S(p, [F("a", "vn", setter={"each": ("item", None)}), F("b", "ovn", setter={"each": ("opt", None)})],
                   setter={"strip_option": True}, default=("default = \"S { a: vec![N(1)], b: Some(vec![N(2)]) }\"", "S { a: vec![N(1)], b: Some(vec![N(2)]) }")), 3))
        L.append((S(p, [F("a", "vn", setter={"each": ("item", None)}, tri=True)], setter={"into": True}), 3))
        # each re-enables a setter that the struct skips
        L.append((S(p, [F("a", "vn", setter={"each": ("item", None)}), F("b", "u")], setter={"skip": True}), 3))
        L.append((S(p, [F("a", "coll", setter={"each": ("item", True)}), F("b", "coll", setter={"each": ("other", None)})]), 4))
        for q in PATS:
            if q != p:
                L.append((S(p, [F("a", "coll", pat=q, setter={"each": ("item", None)}), F("b", "ocoll", pat=q, setter={"each": ("oitem", True), "strip_option": True})]), 3))
                L.append((S(p, [F("a", "vn", pat=q, setter={"each": ("item", None)}), F("b", "vn", pat=q, setter={"each": ("oitem", True)})]), 3))
    write("c07", [x for x in L if okpat(x[0])], 3)


def c10():
    L = []
    ND = ("default = \"N(77)\"", "N(77)")
    SD = lambda fs: ("default = \"S { %s }\"" % fs, "S { %s }" % fs)
    for p in PATS:
        for sd in [None, "word", SD("a: N(1), b: N(2), c: 3")]:
            for d in [None, "word", ND]:
                L.append((S(p, [F("a", "n", setter={"skip": True}, default=d), F("b", "n", default=d), F("c", "u")], default=sd), 2))
                # skipped by the struct
                L.append((S(p, [F("a", "n", default=d), F("b", "n", setter={"skip": False}), F("c", "u", word=True)], setter={"skip": True}, default=sd), 2))
        # several skipped fields around set ones, of the same type
        L.append((S(p, [F("a", "c", setter={"skip": True}, default=("default = \"Cp(5)\"", "Cp(5)")), F("b", "c"), F("c", "c", setter={"skip": True}), F("d", "c")]), 3))
        # a skipped field whose default reads the builder
        L.append((S(p, [F("b", "u", default=("default = 4", "4")), F("a", "u", setter={"skip": True}, default=("default = \"self.b.unwrap_or(8)\"", "m.b.unwrap_or(8)"))]), 3))
        # skip together with other (then unused) setter options
        L.append((S(p, [F("a", "on", setter={"skip": True, "into": True, "strip_option": True}), F("b", "n", setter={"skip": True, "name": "bb"}, tri=True), F("c", "u", setter={"skip": False, "into": True})]), 2))
        # a bare `setter`, or an option, re-enables
        for f in [F("a", "n", word=True), F("a", "n", setter={"into": True}), F("a", "n", setter={"into": False}), F("a", "n", setter={"name": "aa"}), F("a", "n", setter={"prefix": "set"}), F("a", "on", setter={"strip_option": False})]:
            L.append((S(p, [f, F("b", "u")], setter={"skip": True}), 2))
    write("c10", [x for x in L if okpat(x[0])], 2)


def c11():
    L = []
    for p in PATS:
        for ty in ["c", "oc", "coll"] + (["n", "vn", "s", "on"] if p == "owned" else []):
            L.append((S(p, [F("a", ty, fty=ty), F("b", "c")]), 3))
            L.append((S(p, [F("a", ty, fty=ty), F("b", "c")], default=None, setter={"into": True} if ty != "coll" else {}), 2))
        bl = [
            ("n", "u", "build = \"N(self.a)\"", "N(m.a)"),
            ("n", "oc", "build = \"N(self.a.map(|x| x.0).unwrap_or(5))\"", "N(m.a.map(|x| x.0).unwrap_or(5))"),
            ("n", "n", "build = \"self.a.clone()\"", "m.a.clone()"),
            ("u", "vn", "build = \"self.a.iter().fold(0u32, |s, x| s.wrapping_mul(31).wrapping_add(x.0))\"", "m.a.iter().fold(0u32, |s, x| s.wrapping_mul(31).wrapping_add(x.0))"),
            ("u", None, "build = \"self.a.unwrap_or(5).wrapping_add(1)\"", "m.a.unwrap_or(5).wrapping_add(1)"),
            ("n", None, "build = \"self.a.clone().unwrap_or(N(5))\"", "m.a.clone().unwrap_or(N(5))"),
            ("n", None, "build = \"let k = self.b.map(|c| c.0).unwrap_or(0); N(k)\"", "N(m.b.map(|c| c.0).unwrap_or(0))"),
            ("u", None, "build = self.b.map(|c| c.0).unwrap_or(1)", "m.b.map(|c| c.0).unwrap_or(1)"),
        ]
        for ty, fty, t, m in bl:
            L.append((S(p, [F("a", ty, fty=fty, build=(t, m)), F("b", "c")]), 3))
        # a struct default must not replace what is stored
        L.append((S(p, [F("a", "c", fty="c"), F("b", "c"), F("c", "u", build=("build = \"self.c.unwrap_or(5)\"", "m.c.unwrap_or(5)"))],
                   default=("default = \"S { a: Cp(1), b: Cp(2), c: 3 }\"", "S { a: Cp(1), b: Cp(2), c: 3 }")), 3))
        L.append((S(p, [F("a", "oc", fty="oc", setter={"strip_option": True, "into": True}, tri=True), F("b", "c", fty="c", setter={"prefix": "set"})]), 2))
        for q in PATS:
            if q != p:
                L.append((S(p, [F("a", "c", fty="c", pat=q), F("b", "u", pat=q, build=("build = \"self.b.unwrap_or(5)\"", "m.b.unwrap_or(5)"))]), 3))
    write("c11", [x for x in L if okpat(x[0])], 2, derive=True)


if __name__ == "__main__":
    MIX = {"c01": ("", 60), "c02": ("", 40), "c03": ("default", 50), "c04": ("", 40), "c05": ("into", 60), "c06": ("try", 60), "c07": ("each", 60),
           "c10": ("skip", 50), "c11": ("own", 50)}
    for i, (nm, (focus, n)) in enumerate(MIX.items()):
        l = mix(focus, n, i + 1)
        if nm == "c05":
            l += mix("strip", n, i + 1)
        if nm == "c10":
            l += mix("custom", 20, i + 1)
        if nm == "c04":
            l = [s for s in l if s.spat() != "owned"]
        write("mix" + nm, l, 2)
    for f in (c01, c02, c03, c04, c05, c06, c07, c10, c11):
        f()
