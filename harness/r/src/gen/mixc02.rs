// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "set"), default, create_empty = "blank")]
    pub struct S {
        pub _under: u32,
        #[builder(setter(name = "give1", custom = false))]
        pub f: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<u32>,
        pub f: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => dflt._under.clone() },
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.f == want.f, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.f == m.f, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: u32 = any_u32("v"); b = b.set__under(x.clone()); m._under = Some(x); }
                1 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.give1(x.clone()); m.f = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(skip), build_fn(name = "finish", private), derive(Debug))]
    pub struct S {
        #[builder(pattern = "immutable", setter(into, name = "assign0"), default)]
        pub r#fn: u32,
        #[builder(pattern = "mutable", setter, field(ty = "Option<Option<Cp>>", build = "std::mem::size_of_val(&self.converted) as u32"), private)]
        pub converted: u32,
        #[builder(setter(strip_option, skip), default = "Some(None)")]
        pub default_: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<u32>,
        pub converted: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            converted: std::mem::size_of_val(&m.converted) as u32,
            default_: Some(None),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.converted == want.converted, 101);
                check(got.default_ == want.default_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.converted == m.converted, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; let _: &mut SBuilder = b.converted(x.clone()); m.converted = x; }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(prefix = "set", into), default)]
    pub struct S {
        #[builder(public)]
        pub f: N,
        #[builder(pattern = "mutable", try_setter, default, field(public))]
        pub r#fn: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<N>,
        pub r#fn: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got.r#fn == want.r#fn, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b.r#fn == m.r#fn, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.set_f(x.clone()); slots(&b, &m); b = nb; m.f = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.set_f(x.clone()); slots(&b, &m); b = nb; m.f = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.set_fn(x.clone()); m.r#fn = Some(x); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.set_fn(x.clone()); m.r#fn = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_fn(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with", strip_option), custom_constructor, build_fn(name = "finish"))]
    pub struct S {
        pub core: ::std::option::Option<N>,
        #[builder(pattern = "immutable", setter(prefix = "put"), default, field(private))]
        pub std: ::std::option::Option<N>,
        #[builder(pattern = "owned", setter(into, strip_option = false), try_setter, field(public))]
        pub try_it: Cp,
        #[builder(field(ty = "Option<Cp>"))]
        pub self_: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<::std::option::Option<N>>,
        pub std: Option<::std::option::Option<N>>,
        pub try_it: Option<Cp>,
        pub self_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            std: Default::default(),
            try_it: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
            std: match m.std.clone() { Some(v) => v, None => Default::default() },
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            self_: m.self_.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.std == want.std, 101);
                check(got.try_it == want.try_it, 102);
                check(got.self_ == want.self_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.std == m.std, 201);
        check(b.try_it == m.try_it, 202);
        check(b.self_ == m.self_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.with_core(x.clone()); slots(&b, &m); b = nb; m.core = Some(Some(x)); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put_std(x.clone()); slots(&b, &m); b = nb; m.std = Some(Some(x)); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.with_try_it(x.clone()); m.try_it = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.with_try_it(x.clone()); m.try_it = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_try_it(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.try_it = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                5 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.with_self_(x.clone()); slots(&b, &m); b = nb; m.self_ = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set"), build_fn(error(validation_error = false)), derive(Debug))]
    pub struct S {
        #[builder(setter(name = "assign0"), default)]
        pub core: Vec<N>,
        #[builder(pattern = "owned", setter(custom))]
        pub z9_: Cp,
        #[builder(pattern = "immutable", setter(strip_option), default = "Some(None)", field(vis = "pub(super)"))]
        pub result: Option<Option<N>>,
        #[builder(setter(name = "give3"), try_setter, field(ty = "Cp", build = "self.f.0"))]
        pub f: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<Vec<N>>,
        pub z9_: Option<Cp>,
        pub result: Option<Option<Option<N>>>,
        pub f: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            z9_: Default::default(),
            result: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => Default::default() },
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
            result: match m.result.clone() { Some(v) => v, None => Some(None) },
            f: m.f.0,
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.z9_ == want.z9_, 101);
                check(got.result == want.result, 102);
                check(got.f == want.f, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.z9_ == m.z9_, 201);
        check(b.result == m.result, 202);
        check(b.f == m.f, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Cp = Cp(any_u32("v"));
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.assign0(x.clone()); m.core = Some(x); }
                1 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.set_result(x.clone()); slots(&b, &m); b = nb; m.result = Some(Some(x)); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.give3(x.clone()); m.f = x; }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_give3(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(into), default)]
    pub struct S {
        pub build_with: Option<Cp>,
        #[builder(setter(strip_option, prefix = "put", each(name = "each1")), default)]
        pub try_it: Option<Vec<N>>,
        #[builder(pattern = "immutable", setter(strip_option, prefix = "put", into), default)]
        pub x1: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<Option<Cp>>,
        pub try_it: Option<Option<Vec<N>>>,
        pub x1: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            try_it: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
            try_it: match m.try_it.clone() { Some(v) => v, None => Default::default() },
            x1: match m.x1.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.try_it == want.try_it, 101);
                check(got.x1 == want.x1, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b.try_it == m.try_it, 201);
        check(b.x1 == m.x1, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.build_with(x.clone()); m.build_with = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.build_with(x.clone()); m.build_with = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.put_try_it(x.clone()); m.try_it = Some(Some(x)); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.put_try_it(x.clone()); m.try_it = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each1(x.clone()); { let c: &mut Vec<N> = (m.try_it.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                5 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put_x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(Some(x)); }
                6 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.put_x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(into), try_setter, custom_constructor, build_fn(name = "finish"), private)]
    pub struct S {
        #[builder(setter(into = false, strip_option, prefix = "put", name = "give0"), field(vis = "pub(super)"))]
        pub a: Option<Option<N>>,
        #[builder(pattern = "owned", setter(prefix = "put"), try_setter)]
        pub f: Cp,
        #[builder(pattern = "owned", setter(prefix = "put"), field(ty = "Option<Option<Cp>>"), public)]
        pub __x: Option<Option<Cp>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Option<N>>>,
        pub f: Option<Cp>,
        pub __x: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            f: Default::default(),
            __x: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            f: match m.f.clone() { Some(v) => v, None => { return Err("f") } },
            __x: m.__x.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.f == want.f, 101);
                check(got.__x == want.__x, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.f == m.f, 201);
        check(b.__x == m.__x, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.__x = x.clone(); m.__x = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.give0(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_give0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.put_f(x.clone()); m.f = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.put_f(x.clone()); m.f = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_f(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                5 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; b = b.put___x(x.clone()); m.__x = x; }
                6 => { let x = Some(Cp(any_u32("x"))); let xm: Option<Option<Cp>> = Some(x); let c0 = convs(); b = b.put___x(x.clone()); m.__x = xm; check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(into), try_setter, default = "S { converted: String::from(\"lit\"), default_: Cp(7) }", create_empty = "blank", build_fn(error(validation_error = false)), no_std)]
    pub struct S {
        #[builder(pattern = "immutable", setter, default)]
        pub converted: String,
        #[builder(pattern = "mutable", setter(name = "assign1"), default, private)]
        pub default_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<String>,
        pub default_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { converted: String::from("lit"), default_: Cp(7) };
        let _ = &dflt;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => Default::default() },
            default_: match m.default_.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.default_ == want.default_, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.default_ == m.default_, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b.converted(x.clone()); slots(&b, &m); b = nb; m.converted = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let nb: SBuilder = b.converted(x.clone()); slots(&b, &m); b = nb; m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.assign1(x.clone()); m.default_ = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.assign1(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_assign1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(strip_option, skip), try_setter, default = "S { core: Cp(7), build_: String::from(\"lit\") }", derive(Debug))]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub core: Cp,
        pub build_: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { core: Cp(7), build_: String::from("lit") };
        let _ = &dflt;
        Ok(S {
            core: dflt.core.clone(),
            build_: dflt.build_.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.build_ == want.build_, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 1) {
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set", skip), default = "S { a: 7, std: vec![N(7)], z9_: vec![N(7)] }", name = "Maker", custom_constructor, build_fn(error(validation_error = false)), derive(Debug))]
    pub struct S {
        pub a: u32,
        #[builder(setter(name = "give1", each = "each1"))]
        pub std: Vec<N>,
        #[builder(pattern = "immutable", setter, field(ty = "Vec<N>"))]
        pub z9_: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<Vec<N>>,
        pub z9_: Vec<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: 7, std: vec![N(7)], z9_: vec![N(7)] };
        let _ = &dflt;
        Ok(S {
            a: dflt.a.clone(),
            std: match m.std.clone() { Some(v) => v, None => dflt.std.clone() },
            z9_: m.z9_.clone(),
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.std == want.std, 101);
                check(got.z9_ == want.z9_, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 201);
        check(b.z9_ == m.z9_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.give1(x.clone()); m.std = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each1(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.std, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: Maker = b.set_z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = x; }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(into, strip_option = false), default, custom_constructor, derive(Debug))]
    pub struct S {
        #[builder(setter(strip_option = false, name = "assign0"), default = "Some(N(7))")]
        pub default_: Option<N>,
        #[builder(pattern = "owned")]
        pub self_: Option<N>,
        #[builder(default = "N(7)", private)]
        pub build_with: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<Option<N>>,
        pub self_: Option<Option<N>>,
        pub build_with: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            self_: Default::default(),
            build_with: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => Some(N(7)) },
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
            build_with: match m.build_with.clone() { Some(v) => v, None => N(7) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.self_ == want.self_, 101);
                check(got.build_with == want.build_with, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.self_ == m.self_, 201);
        check(b.build_with == m.build_with, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.assign0(x.clone()); m.default_ = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.assign0(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.self_(x.clone()); m.self_ = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.self_(x.clone()); m.self_ = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x: N = N(any_u32("v")); b = b.build_with(x.clone()); m.build_with = Some(x); }
                5 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.build_with(x.clone()); m.build_with = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "with", strip_option), try_setter, default, name = "Maker", create_empty = "blank", build_fn(public))]
    pub struct S {
        #[builder(setter(strip_option = false), field(private))]
        pub std: Option<N>,
        #[builder(setter(into = false, strip_option = false, prefix = "put"), default)]
        pub core: N,
        #[builder(setter(into, prefix = "put", skip = false), field(private))]
        pub Upper: String,
        #[builder(setter(into = false, custom), default = "N(7)")]
        pub r#fn: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<Option<N>>,
        pub core: Option<N>,
        pub Upper: Option<String>,
        pub r#fn: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            core: Default::default(),
            Upper: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => dflt.std.clone() },
            core: match m.core.clone() { Some(v) => v, None => Default::default() },
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => N(7) },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.core == want.core, 101);
                check(got.Upper == want.Upper, 102);
                check(got.r#fn == want.r#fn, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.core == m.core, 201);
        check(b.Upper == m.Upper, 202);
        check(b.r#fn == m.r#fn, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.with_std(x.clone()); m.std = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_with_std(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: N = N(any_u32("v")); b = b.put_core(x.clone()); m.core = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_core(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.core = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                4 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.put_Upper(x.clone()); m.Upper = Some(x); }
                5 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.put_Upper(x.clone()); m.Upper = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", into), default = "S { default_: vec![N(7)], _under: Some(None), b: Some(Some(Cp(7))), err: Some(N(7)) }")]
    pub struct S {
        #[builder(pattern = "mutable", setter(prefix = "put"))]
        pub default_: Vec<N>,
        #[builder(setter(into = false, strip_option))]
        pub _under: Option<Option<N>>,
        #[builder(field(ty = "Option<Option<Cp>>"))]
        pub b: Option<Option<Cp>>,
        #[builder(setter(into, strip_option), try_setter, default)]
        pub err: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<Vec<N>>,
        pub _under: Option<Option<Option<N>>>,
        pub b: Option<Option<Cp>>,
        pub err: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            _under: Default::default(),
            b: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { default_: vec![N(7)], _under: Some(None), b: Some(Some(Cp(7))), err: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
            _under: match m._under.clone() { Some(v) => v, None => dflt._under.clone() },
            b: m.b.clone(),
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got._under == want._under, 101);
                check(got.b == want.b, 102);
                check(got.err == want.err, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b._under == m._under, 201);
        check(b.b == m.b, 202);
        check(b.err == m.err, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.put_default_(x.clone()); m.default_ = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.put_default_(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.with__under(x.clone()); m._under = Some(Some(x)); }
                3 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; b = b.with_b(x.clone()); m.b = x; }
                4 => { let x = Some(Cp(any_u32("x"))); let xm: Option<Option<Cp>> = Some(x); let c0 = convs(); b = b.with_b(x.clone()); m.b = xm; check(convs() == c0 + 0, 80); }
                5 => { let x: N = N(any_u32("v")); b = b.with_err(x.clone()); m.err = Some(Some(x)); }
                6 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.with_err(x.clone()); m.err = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                7 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_err(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { build_: Some(N(7)), x1: Cp(7) }")]
    pub struct S {
        #[builder(setter(strip_option = false))]
        pub build_: Option<N>,
        #[builder(pattern = "immutable", try_setter, field(build = "self.x1.unwrap_or(Cp(5))"), public)]
        pub x1: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_: Option<Option<N>>,
        pub x1: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { build_: Some(N(7)), x1: Cp(7) };
        let _ = &dflt;
        Ok(S {
            build_: match m.build_.clone() { Some(v) => v, None => dflt.build_.clone() },
            x1: m.x1.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_ == want.build_, 100);
                check(got.x1 == want.x1, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_ == m.build_, 200);
        check(b.x1 == m.x1, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.build_(x.clone()); m.build_ = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(x); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_x1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "set"), try_setter, default, field(vis = "pub(crate)"), derive(Debug))]
    pub struct S {
        #[builder(pattern = "mutable", setter(name = "assign0"), field(public), private)]
        pub self_: Option<Option<N>>,
        #[builder(pattern = "immutable")]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub self_: Option<Option<Option<N>>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            self_: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.self_ == want.self_, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.self_ == m.self_, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut SBuilder = b.assign0(x.clone()); m.self_ = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.set_b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_set_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option), default = "S { r#type: 7, self_: Cp(7), _under: String::from(\"lit\"), new: Some(Cp(7)) }", name = "Maker", create_empty = "blank")]
    pub struct S {
        #[builder(pattern = "immutable", setter(strip_option = false, prefix = "put"), default)]
        pub r#type: u32,
        #[builder(setter(into, prefix = "put", name = "assign1"), field(build = "self.self_.unwrap_or(Cp(5))"))]
        pub self_: Cp,
        #[builder(setter(name = "assign2", skip))]
        pub _under: String,
        #[builder(setter(strip_option = false, name = "give3"), default = "Some(Cp(7))")]
        pub new: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<u32>,
        pub self_: Option<Cp>,
        pub new: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            self_: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#type: 7, self_: Cp(7), _under: String::from("lit"), new: Some(Cp(7)) };
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            self_: m.self_.unwrap_or(Cp(5)),
            _under: dflt._under.clone(),
            new: match m.new.clone() { Some(v) => v, None => Some(Cp(7)) },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.self_ == want.self_, 101);
                check(got._under == want._under, 102);
                check(got.new == want.new, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.self_ == m.self_, 201);
        check(b.new == m.new, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: u32 = any_u32("v"); let nb: Maker = b.put_type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: Maker = b.put_type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.assign1(x.clone()); m.self_ = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.assign1(x.clone()); m.self_ = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.give3(x.clone()); m.new = Some(x); }
                5 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.give3(x.clone()); m.new = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(skip = false))]
    pub struct S {
        #[builder(pattern = "mutable", try_setter)]
        pub default_: String,
        #[builder(setter(prefix = "put", each(name = "each1", into), strip_option))]
        pub err: Option<Vec<N>>,
        #[builder(pattern = "mutable", setter(prefix = "put"), try_setter, field(vis = "pub(super)"))]
        pub f: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<String>,
        pub err: Option<Option<Vec<N>>>,
        pub f: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            err: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            err: match m.err.clone() { Some(v) => v, None => { return Err("err") } },
            f: match m.f.clone() { Some(v) => v, None => { return Err("f") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.err == want.err, 101);
                check(got.f == want.f, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.err == m.err, 201);
        check(b.f == m.f, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.default_(x.clone()); m.default_ = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.put_err(x.clone()); m.err = Some(Some(x)); }
                2 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Vec<N> = (m.err.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                3 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.put_f(x.clone()); m.f = Some(x); }
                4 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_put_f(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(skip), default = "S { try_it: (7, 8), build_: vec![N(7)], value: N(7) }", custom_constructor, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "mutable", try_setter, default)]
        pub try_it: (u8, u16),
        #[builder(default)]
        pub build_: Vec<N>,
        #[builder(setter(prefix = "put", into), try_setter)]
        pub value: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub value: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { try_it: (7, 8), build_: vec![N(7)], value: N(7) };
        let _ = &dflt;
        Ok(S {
            try_it: Default::default(),
            build_: Default::default(),
            value: match m.value.clone() { Some(v) => v, None => dflt.value.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.build_ == want.build_, 101);
                check(got.value == want.value, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.value == m.value, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put_value(x.clone()); slots(&b, &m); b = nb; m.value = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.put_value(x.clone()); slots(&b, &m); b = nb; m.value = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_value(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.value = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into), default = "S { r#fn: None, f: None }", create_empty = "blank")]
    pub struct S {
        #[builder(default)]
        pub r#fn: ::std::option::Option<N>,
        #[builder(setter(into, name = "give1", each(name = "each1", into), strip_option), try_setter, private)]
        pub f: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<::std::option::Option<N>>,
        pub f: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#fn: None, f: None };
        let _ = &dflt;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.f == want.f, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.f == m.f, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.r#fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.r#fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.give1(x.clone()); slots(&b, &m); b = nb; m.f = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.each1(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = (m.f.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option), build_fn(private))]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub converted: Vec<N>,
        #[builder(setter(strip_option, skip))]
        pub a: u32,
        #[builder(setter(strip_option), default = "Some(None)", vis = "pub(crate)")]
        pub Upper: Option<Option<N>>,
        #[builder(setter(prefix = "put", into), default)]
        pub self_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<Vec<N>>,
        pub Upper: Option<Option<Option<N>>>,
        pub self_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            Upper: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => { return Err("converted") } },
            a: Default::default(),
            Upper: match m.Upper.clone() { Some(v) => v, None => Some(None) },
            self_: match m.self_.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.a == want.a, 101);
                check(got.Upper == want.Upper, 102);
                check(got.self_ == want.self_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.Upper == m.Upper, 202);
        check(b.self_ == m.self_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.Upper(x.clone()); m.Upper = Some(Some(x)); }
                3 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.Upper(x.clone()); m.Upper = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                4 => { let x: Cp = Cp(any_u32("v")); b = b.put_self_(x.clone()); m.self_ = Some(x); }
                5 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.put_self_(x.clone()); m.self_ = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s20 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "with", into, strip_option), default = "S { _under: Some(N(7)), core: Some(N(7)), a: String::from(\"lit\"), value: 7 }", custom_constructor, build_fn(name = "finish"), private)]
    pub struct S {
        #[builder(setter)]
        pub _under: Option<N>,
        #[builder(setter(into = false, strip_option), try_setter, default)]
        pub core: Option<N>,
        #[builder(setter, default, field(private))]
        pub a: String,
        #[builder(pattern = "immutable", field(ty = "Cp", build = "self.value.0"))]
        pub value: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<Option<N>>,
        pub core: Option<Option<N>>,
        pub a: Option<String>,
        pub value: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            core: Default::default(),
            a: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { _under: Some(N(7)), core: Some(N(7)), a: String::from("lit"), value: 7 };
        let _ = &dflt;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => dflt._under.clone() },
            core: match m.core.clone() { Some(v) => v, None => Default::default() },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            value: m.value.0,
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.core == want.core, 101);
                check(got.a == want.a, 102);
                check(got.value == want.value, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.core == m.core, 201);
        check(b.a == m.a, 202);
        check(b.value == m.value, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Cp = Cp(any_u32("v"));
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.with__under(x.clone()); m._under = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.with__under(x.clone()); m._under = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.with_core(x.clone()); m.core = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_core(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.core = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                4 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.with_a(x.clone()); m.a = Some(x); }
                5 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut SBuilder = b.with_a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                6 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.with_value(x.clone()); slots(&b, &m); b = nb; m.value = x; }
                7 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.with_value(x.clone()); slots(&b, &m); b = nb; m.value = xm; check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s21 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option = false, skip), default = "S { Upper: Some(Cp(7)), __x: N(7), converted: Some(N(7)) }")]
    pub struct S {
        #[builder(pattern = "immutable", setter(prefix = "put"))]
        pub Upper: Option<Cp>,
        #[builder(pattern = "owned", setter(into = false, name = "give1"))]
        pub __x: N,
        #[builder(setter(strip_option), try_setter)]
        pub converted: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub Upper: Option<Option<Cp>>,
        pub __x: Option<N>,
        pub converted: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            Upper: Default::default(),
            __x: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { Upper: Some(Cp(7)), __x: N(7), converted: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.Upper == want.Upper, 100);
                check(got.__x == want.__x, 101);
                check(got.converted == want.converted, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.Upper == m.Upper, 200);
        check(b.__x == m.__x, 201);
        check(b.converted == m.converted, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.put_Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let nb: SBuilder = b.put_Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: N = N(any_u32("v")); b = b.give1(x.clone()); m.__x = Some(x); }
                3 => { let x: N = N(any_u32("v")); b = b.converted(x.clone()); m.converted = Some(Some(x)); }
                4 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.converted(x.clone()); m.converted = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_converted(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s22 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(into, strip_option), try_setter, default, build_fn(private))]
    pub struct S {
        #[builder(pattern = "immutable", setter(prefix = "put"), field(public))]
        pub build_: Option<N>,
        #[builder(pattern = "immutable", setter(skip), try_setter)]
        pub _under: Option<N>,
        #[builder(setter(into), default)]
        pub r#type: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_: Option<Option<N>>,
        pub r#type: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            build_: match m.build_.clone() { Some(v) => v, None => dflt.build_.clone() },
            _under: dflt._under.clone(),
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_ == want.build_, 100);
                check(got._under == want._under, 101);
                check(got.r#type == want.r#type, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_ == m.build_, 200);
        check(b.r#type == m.r#type, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put_build_(x.clone()); slots(&b, &m); b = nb; m.build_ = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.put_build_(x.clone()); slots(&b, &m); b = nb; m.build_ = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_build_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.r#type(x.clone()); m.r#type = Some(Some(x)); }
                4 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.r#type(x.clone()); m.r#type = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_type(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s23 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set", strip_option = false), custom_constructor, no_std)]
    pub struct S {
        #[builder(setter(into = false, strip_option = false, prefix = "put", name = "assign0"), private)]
        pub wh: ::std::option::Option<N>,
        #[builder(setter(skip))]
        pub std: Cp,
        #[builder(setter(strip_option))]
        pub __x: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<::std::option::Option<N>>,
        pub __x: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            __x: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
            std: Default::default(),
            __x: match m.__x.clone() { Some(v) => v, None => { return Err("__x") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.wh == want.wh, 100);
                check(got.std == want.std, 101);
                check(got.__x == want.__x, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 200);
        check(b.__x == m.__x, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.__x = x.clone(); m.__x = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.assign0(x.clone()); m.wh = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.set___x(x.clone()); m.__x = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s24 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(into), name = "Maker", no_std)]
    pub struct S {
        #[builder(setter(name = "give0"), vis = "pub(crate)")]
        pub item: N,
        #[builder(setter(prefix = "put"), try_setter, default)]
        pub x1: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<N>,
        pub x1: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            x1: match m.x1.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.x1 == want.x1, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.x1 == m.x1, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut Maker = b.give0(x.clone()); m.item = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.give0(x.clone()); m.item = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut Maker = b.put_x1(x.clone()); m.x1 = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut Maker = b.put_x1(x.clone()); m.x1 = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_put_x1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s25 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", into), name = "Maker", no_std)]
    pub struct S {
        #[builder(pattern = "immutable", setter(prefix = "put"))]
        pub core: Vec<N>,
        #[builder(pattern = "mutable", try_setter, vis = "pub(crate)")]
        pub item: Cp,
        #[builder(setter(prefix = "put"), try_setter, default, vis = "pub(crate)")]
        pub try_it: (u8, u16),
        #[builder(pattern = "owned", setter(strip_option, name = "give3", custom), field(private))]
        pub self_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<Vec<N>>,
        pub item: Option<Cp>,
        pub try_it: Option<(u8, u16)>,
        pub self_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            item: Default::default(),
            try_it: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            try_it: match m.try_it.clone() { Some(v) => v, None => Default::default() },
            self_: match m.self_.clone() { Some(v) => v, None => { return Err("self_") } },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.item == want.item, 101);
                check(got.try_it == want.try_it, 102);
                check(got.self_ == want.self_, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.item == m.item, 201);
        check(b.try_it == m.try_it, 202);
        check(b.self_ == m.self_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: Maker = b.put_core(x.clone()); slots(&b, &m); b = nb; m.core = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: Maker = b.put_core(x.clone()); slots(&b, &m); b = nb; m.core = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut Maker = b.with_item(x.clone()); m.item = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.with_item(x.clone()); m.item = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_item(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.put_try_it(x.clone()); m.try_it = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s26 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "set", into = false, strip_option = false), default = "S { new: None, value: Some(vec![N(7)]) }", create_empty = "blank", build_fn(error(validation_error = false)), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(prefix = "put"), try_setter)]
        pub new: ::std::option::Option<N>,
        #[builder(setter(into = false, name = "assign1", each(name = "each1", into), strip_option), default, field(public))]
        pub value: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<::std::option::Option<N>>,
        pub value: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { new: None, value: Some(vec![N(7)]) };
        let _ = &dflt;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
            value: match m.value.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.value == want.value, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b.value == m.value, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.put_new(x.clone()); m.new = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_put_new(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.assign1(x.clone()); m.value = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Vec<N> = (m.value.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s27 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(prefix = "set", into), try_setter, create_empty = "blank", build_fn(name = "finish", error(validation_error = false), public), field(public), derive(Debug))]
    pub struct S {
        #[builder(setter(into), default = "(7, 8)", field(vis = "pub(super)"))]
        pub build_: (u8, u16),
        #[builder(setter(into), try_setter, default = "7")]
        pub self_: u32,
        #[builder(pattern = "owned", setter(into), field(build = "self.new.unwrap_or(Cp(5))"))]
        pub new: Cp,
        #[builder(setter(prefix = "put"), default, field(public), public)]
        pub r#fn: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_: Option<(u8, u16)>,
        pub self_: Option<u32>,
        pub new: Option<Cp>,
        pub r#fn: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_: Default::default(),
            self_: Default::default(),
            new: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            build_: match m.build_.clone() { Some(v) => v, None => (7, 8) },
            self_: match m.self_.clone() { Some(v) => v, None => 7 },
            new: m.new.unwrap_or(Cp(5)),
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_ == want.build_, 100);
                check(got.self_ == want.self_, 101);
                check(got.new == want.new, 102);
                check(got.r#fn == want.r#fn, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_ == m.build_, 200);
        check(b.self_ == m.self_, 201);
        check(b.new == m.new, 202);
        check(b.r#fn == m.r#fn, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.set_build_(x.clone()); m.build_ = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.set_self_(x.clone()); m.self_ = Some(x); }
                2 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut SBuilder = b.set_self_(x.clone()); m.self_ = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_set_self_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x: Cp = Cp(any_u32("v")); b = b.set_new(x.clone()); m.new = Some(x); }
                5 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.set_new(x.clone()); m.new = Some(xm); check(convs() == c0 + 1, 80); }
                6 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_new(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                7 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.put_fn(x.clone()); m.r#fn = Some(x); }
                8 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut SBuilder = b.put_fn(x.clone()); m.r#fn = Some(xm); check(convs() == c0 + 0, 80); }
                9 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_put_fn(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s28 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(strip_option = false), default, build_fn(public), derive(Debug))]
    pub struct S {
        #[builder(pattern = "immutable", setter(into, strip_option, prefix = "put"))]
        pub build_with: u32,
        #[builder(pattern = "owned", setter(custom), public)]
        pub item: Cp,
        #[builder(pattern = "immutable", setter(into, prefix = "put"), default)]
        pub wh: String,
        #[builder(setter(prefix = "put", into))]
        pub value: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<u32>,
        pub item: Option<Cp>,
        pub wh: Option<String>,
        pub value: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            item: Default::default(),
            wh: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
            wh: match m.wh.clone() { Some(v) => v, None => Default::default() },
            value: match m.value.clone() { Some(v) => v, None => dflt.value.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.item == want.item, 101);
                check(got.wh == want.wh, 102);
                check(got.value == want.value, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b.item == m.item, 201);
        check(b.wh == m.wh, 202);
        check(b.value == m.value, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.put_build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.put_build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b.put_wh(x.clone()); slots(&b, &m); b = nb; m.wh = Some(x); }
                3 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let nb: SBuilder = b.put_wh(x.clone()); slots(&b, &m); b = nb; m.wh = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x: Cp = Cp(any_u32("v")); b = b.put_value(x.clone()); m.value = Some(x); }
                5 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.put_value(x.clone()); m.value = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s29 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "with", strip_option), name = "Maker", custom_constructor, build_fn(error(validation_error = false)), derive(Debug))]
    pub struct S {
        #[builder(pattern = "mutable", setter(into, prefix = "put"), field(vis = "pub(super)"))]
        pub _under: String,
        #[builder(setter(strip_option))]
        pub try_it: Option<Cp>,
        #[builder(pattern = "immutable", setter(strip_option = false), try_setter, default)]
        pub r#fn: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<String>,
        pub try_it: Option<Option<Cp>>,
        pub r#fn: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            try_it: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => { return Err("_under") } },
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.try_it == want.try_it, 101);
                check(got.r#fn == want.r#fn, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.try_it == m.try_it, 201);
        check(b.r#fn == m.r#fn, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut Maker = b.put__under(x.clone()); m._under = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut Maker = b.put__under(x.clone()); m._under = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut Maker = b.with_try_it(x.clone()); m.try_it = Some(Some(x)); }
                3 => { let x: N = N(any_u32("v")); let nb: Maker = b.with_fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_with_fn(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s30 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with", strip_option), default = "S { x1: vec![N(7)], new: Some(None) }")]
    pub struct S {
        #[builder(setter, try_setter, default = "vec![N(7)]", private)]
        pub x1: Vec<N>,
        #[builder(pattern = "mutable", setter(strip_option, prefix = "put"), vis = "pub(crate)")]
        pub new: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub x1: Option<Vec<N>>,
        pub new: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            x1: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { x1: vec![N(7)], new: Some(None) };
        let _ = &dflt;
        Ok(S {
            x1: match m.x1.clone() { Some(v) => v, None => vec![N(7)] },
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.x1 == want.x1, 100);
                check(got.new == want.new, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.x1 == m.x1, 200);
        check(b.new == m.new, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.with_x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_with_x1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.put_new(x.clone()); m.new = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s31 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set"), default = "S { build_: Some(None), new: 7 }", custom_constructor, build_fn(name = "finish"), private, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(strip_option), default)]
        pub build_: Option<Option<N>>,
        #[builder(setter(prefix = "put"), try_setter, default)]
        pub new: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_: Option<Option<Option<N>>>,
        pub new: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { build_: Some(None), new: 7 };
        let _ = &dflt;
        Ok(S {
            build_: match m.build_.clone() { Some(v) => v, None => Default::default() },
            new: match m.new.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_ == want.build_, 100);
                check(got.new == want.new, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_ == m.build_, 200);
        check(b.new == m.new, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.set_build_(x.clone()); m.build_ = Some(Some(x)); }
                1 => { let x: u32 = any_u32("v"); b = b.put_new(x.clone()); m.new = Some(x); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_put_new(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s32 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(prefix = "with", into, strip_option), name = "Maker", build_fn(name = "finish", error(validation_error = false), public), no_std, private)]
    pub struct S {
        #[builder(setter(into = false), default)]
        pub build_with: ::std::option::Option<N>,
        #[builder(setter(name = "give1"), default = "Cp(7)")]
        pub build_: Cp,
        #[builder(setter(into))]
        pub default_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<::std::option::Option<N>>,
        pub build_: Option<Cp>,
        pub default_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            build_: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => Default::default() },
            build_: match m.build_.clone() { Some(v) => v, None => Cp(7) },
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.build_ == want.build_, 101);
                check(got.default_ == want.default_, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b.build_ == m.build_, 201);
        check(b.default_ == m.default_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut Maker = b.with_build_with(x.clone()); m.build_with = Some(Some(x)); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut Maker = b.give1(x.clone()); m.build_ = Some(x); }
                2 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.give1(x.clone()); m.build_ = Some(xm); check(convs() == c0 + 1, 80); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut Maker = b.with_default_(x.clone()); m.default_ = Some(x); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.with_default_(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s33 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(strip_option = false, skip = false), default = "S { new: Cp(7), Upper: None, try_it: Cp(7) }", create_empty = "blank")]
    pub struct S {
        #[builder(pattern = "owned", try_setter)]
        pub new: Cp,
        #[builder(setter(strip_option))]
        pub Upper: ::std::option::Option<N>,
        #[builder(try_setter, default)]
        pub try_it: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<Cp>,
        pub Upper: Option<::std::option::Option<N>>,
        pub try_it: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            Upper: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { new: Cp(7), Upper: None, try_it: Cp(7) };
        let _ = &dflt;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
            try_it: match m.try_it.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.Upper == want.Upper, 101);
                check(got.try_it == want.try_it, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b.Upper == m.Upper, 201);
        check(b.try_it == m.try_it, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.new(x.clone()); m.new = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_new(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.Upper(x.clone()); m.Upper = Some(Some(x)); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.try_it(x.clone()); m.try_it = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_try_it(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.try_it = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s34 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(setter(into, strip_option = false), try_setter, default, build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(strip_option, prefix = "put"), try_setter)]
        pub err: u32,
        #[builder(setter(each = "each1", strip_option), try_setter)]
        pub wh: Option<Coll>,
        #[builder(pattern = "mutable", setter(into), default = "Some(None)")]
        pub r#type: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<u32>,
        pub wh: Option<Option<Coll>>,
        pub r#type: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            wh: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => dflt.err.clone() },
            wh: match m.wh.clone() { Some(v) => v, None => dflt.wh.clone() },
            r#type: match m.r#type.clone() { Some(v) => v, None => Some(None) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.wh == want.wh, 101);
                check(got.r#type == want.r#type, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.wh == m.wh, 201);
        check(b.r#type == m.r#type, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.put_err(x.clone()); m.err = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut SBuilder = b.put_err(x.clone()); m.err = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_put_err(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.wh(x.clone()); m.wh = Some(Some(x)); }
                4 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Coll = (m.wh.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                5 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut SBuilder = b.r#type(x.clone()); m.r#type = Some(x); }
                6 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.r#type(x.clone()); m.r#type = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s35 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", strip_option = false), default = "S { value: String::from(\"lit\"), self_: vec![N(7)], wh: Coll { items: [7; 6], len: 1, origin: 7 }, build_with: None }", name = "Maker", custom_constructor)]
    pub struct S {
        #[builder(setter(into = false), try_setter, default = "String::from(\"lit\")")]
        pub value: String,
        #[builder(pattern = "mutable", try_setter, default = "vec![N(7)]")]
        pub self_: Vec<N>,
        #[builder(setter(each(name = "each2")))]
        pub wh: Coll,
        #[builder(setter(name = "assign3", custom = false), default, vis = "pub(crate)")]
        pub build_with: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub value: Option<String>,
        pub self_: Option<Vec<N>>,
        pub wh: Option<Coll>,
        pub build_with: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            value: Default::default(),
            self_: Default::default(),
            wh: Default::default(),
            build_with: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { value: String::from("lit"), self_: vec![N(7)], wh: Coll { items: [7; 6], len: 1, origin: 7 }, build_with: None };
        let _ = &dflt;
        Ok(S {
            value: match m.value.clone() { Some(v) => v, None => String::from("lit") },
            self_: match m.self_.clone() { Some(v) => v, None => vec![N(7)] },
            wh: match m.wh.clone() { Some(v) => v, None => dflt.wh.clone() },
            build_with: match m.build_with.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.value == want.value, 100);
                check(got.self_ == want.self_, 101);
                check(got.wh == want.wh, 102);
                check(got.build_with == want.build_with, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.value == m.value, 200);
        check(b.self_ == m.self_, 201);
        check(b.wh == m.wh, 202);
        check(b.build_with == m.build_with, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.with_value(x.clone()); m.value = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut Maker = b.with_self_(x.clone()); m.self_ = Some(x); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_with_self_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.with_wh(x.clone()); m.wh = Some(x); }
                4 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.wh, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                5 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.assign3(x.clone()); m.build_with = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s36 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { r#type: (7, 8), build_with: String::from(\"lit\"), default_: Some(N(7)), r#fn: Some(None) }", name = "Maker", build_fn(name = "finish", private))]
    pub struct S {
        #[builder(setter(strip_option), default)]
        pub r#type: (u8, u16),
        #[builder(setter(custom), try_setter, field(public))]
        pub build_with: String,
        #[builder(setter(strip_option))]
        pub default_: Option<N>,
        #[builder(pattern = "immutable", setter(into = false, strip_option), default)]
        pub r#fn: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<(u8, u16)>,
        pub build_with: Option<String>,
        pub default_: Option<Option<N>>,
        pub r#fn: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            build_with: Default::default(),
            default_: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#type: (7, 8), build_with: String::from("lit"), default_: Some(N(7)), r#fn: Some(None) };
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.build_with == want.build_with, 101);
                check(got.default_ == want.default_, 102);
                check(got.r#fn == want.r#fn, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.build_with == m.build_with, 201);
        check(b.default_ == m.default_, 202);
        check(b.r#fn == m.r#fn, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.r#type(x.clone()); m.r#type = Some(x); }
                1 => { let x: N = N(any_u32("v")); b = b.default_(x.clone()); m.default_ = Some(Some(x)); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: Maker = b.r#fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s37 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default, build_fn(error(validation_error = false)), private, field(public))]
    pub struct S {
        #[builder(setter(into), try_setter, default)]
        pub a: ::std::option::Option<N>,
        #[builder(setter(prefix = "put", into))]
        pub new: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub new: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.new == want.new, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.new == m.new, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.put_new(x.clone()); m.new = Some(x); }
                4 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.put_new(x.clone()); m.new = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s38 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { default_: Some(None), __x: Some(None), r#fn: Some(N(7)) }", name = "Maker", create_empty = "blank", build_fn(name = "finish"))]
    pub struct S {
        #[builder(default, private)]
        pub default_: Option<Option<N>>,
        #[builder(pattern = "mutable", setter(strip_option))]
        pub __x: Option<Option<N>>,
        #[builder(setter(strip_option), default, public)]
        pub r#fn: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<Option<Option<N>>>,
        pub __x: Option<Option<Option<N>>>,
        pub r#fn: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            __x: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { default_: Some(None), __x: Some(None), r#fn: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => Default::default() },
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.__x == want.__x, 101);
                check(got.r#fn == want.r#fn, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.__x == m.__x, 201);
        check(b.r#fn == m.r#fn, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut Maker = b.default_(x.clone()); m.default_ = Some(x); }
                1 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut Maker = b.__x(x.clone()); m.__x = Some(Some(x)); }
                2 => { let x: N = N(any_u32("v")); let _: &mut Maker = b.r#fn(x.clone()); m.r#fn = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s39 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", no_std)]
    pub struct S {
        #[builder(pattern = "immutable", setter(prefix = "put"))]
        pub core: String,
        #[builder(pattern = "owned", setter(skip), try_setter)]
        pub b: N,
        #[builder(pattern = "immutable", default)]
        pub converted: u32,
        #[builder(pattern = "immutable", setter(prefix = "put", custom), try_setter, default)]
        pub r#fn: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<String>,
        pub converted: Option<u32>,
        pub r#fn: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            converted: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
            b: Default::default(),
            converted: match m.converted.clone() { Some(v) => v, None => Default::default() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.b == want.b, 101);
                check(got.converted == want.converted, 102);
                check(got.r#fn == want.r#fn, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.converted == m.converted, 202);
        check(b.r#fn == m.r#fn, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b.put_core(x.clone()); slots(&b, &m); b = nb; m.core = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.converted(x.clone()); slots(&b, &m); b = nb; m.converted = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub const COUNT: usize = 40;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(2 + extra, false),
        1 => s1::run(2 + extra, false),
        2 => s2::run(2 + extra, false),
        3 => s3::run(2 + extra, false),
        4 => s4::run(2 + extra, false),
        5 => s5::run(2 + extra, false),
        6 => s6::run(2 + extra, false),
        7 => s7::run(2 + extra, false),
        8 => s8::run(2 + extra, false),
        9 => s9::run(2 + extra, false),
        10 => s10::run(2 + extra, false),
        11 => s11::run(2 + extra, false),
        12 => s12::run(2 + extra, false),
        13 => s13::run(2 + extra, false),
        14 => s14::run(2 + extra, false),
        15 => s15::run(2 + extra, false),
        16 => s16::run(2 + extra, false),
        17 => s17::run(2 + extra, false),
        18 => s18::run(2 + extra, false),
        19 => s19::run(2 + extra, false),
        20 => s20::run(2 + extra, false),
        21 => s21::run(2 + extra, false),
        22 => s22::run(2 + extra, false),
        23 => s23::run(2 + extra, false),
        24 => s24::run(2 + extra, false),
        25 => s25::run(2 + extra, false),
        26 => s26::run(2 + extra, false),
        27 => s27::run(2 + extra, false),
        28 => s28::run(2 + extra, false),
        29 => s29::run(2 + extra, false),
        30 => s30::run(2 + extra, false),
        31 => s31::run(2 + extra, false),
        32 => s32::run(2 + extra, false),
        33 => s33::run(2 + extra, false),
        34 => s34::run(2 + extra, false),
        35 => s35::run(2 + extra, false),
        36 => s36::run(2 + extra, false),
        37 => s37::run(2 + extra, false),
        38 => s38::run(2 + extra, false),
        _ => s39::run(2 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        19 => s19::run(k, true),
        20 => s20::run(k, true),
        21 => s21::run(k, true),
        22 => s22::run(k, true),
        23 => s23::run(k, true),
        24 => s24::run(k, true),
        25 => s25::run(k, true),
        26 => s26::run(k, true),
        27 => s27::run(k, true),
        28 => s28::run(k, true),
        29 => s29::run(k, true),
        30 => s30::run(k, true),
        31 => s31::run(k, true),
        32 => s32::run(k, true),
        33 => s33::run(k, true),
        34 => s34::run(k, true),
        35 => s35::run(k, true),
        36 => s36::run(k, true),
        37 => s37::run(k, true),
        38 => s38::run(k, true),
        _ => s39::run(k, true),
    }
}
