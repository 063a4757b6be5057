// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), name = "Maker", field(public))]
    pub struct S {
        pub result: u32,
        #[builder(try_setter)]
        pub build_with: ::std::option::Option<N>,
        #[builder(setter(each = "each2"), default)]
        pub _under: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub result: Option<u32>,
        pub build_with: Option<::std::option::Option<N>>,
        pub _under: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            result: Default::default(),
            build_with: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            result: match m.result.clone() { Some(v) => v, None => { return Err("result") } },
            build_with: match m.build_with.clone() { Some(v) => v, None => { return Err("build_with") } },
            _under: match m._under.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.result == want.result, 100);
                check(got.build_with == want.build_with, 101);
                check(got._under == want._under, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.result == m.result, 200);
        check(b.build_with == m.build_with, 201);
        check(b._under == m._under, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: u32 = any_u32("v"); b = b.result(x.clone()); m.result = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.result(x.clone()); m.result = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.build_with(x.clone()); m.build_with = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); b = b.build_with(x.clone()); m.build_with = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_build_with(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                5 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b._under(x.clone()); m._under = Some(x); }
                6 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b._under(x.clone()); m._under = Some(xm); check(convs() == c0 + 0, 80); }
                7 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m._under, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "with"), default, build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(into), try_setter, default, public)]
        pub r#fn: Option<Option<N>>,
        #[builder(setter(into, each = "each1"), default = "vec![N(7)]")]
        pub a: Vec<N>,
        #[builder(try_setter, field(build = "self.z9_.unwrap_or(Cp(5))"))]
        pub z9_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<Option<Option<N>>>,
        pub a: Option<Vec<N>>,
        pub z9_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            a: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            a: match m.a.clone() { Some(v) => v, None => vec![N(7)] },
            z9_: m.z9_.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.a == want.a, 101);
                check(got.z9_ == want.z9_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.a == m.a, 201);
        check(b.z9_ == m.z9_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.with_fn(x.clone()); m.r#fn = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.with_fn(x.clone()); m.r#fn = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.with_a(x.clone()); m.a = Some(x); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.with_a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each1(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                5 => { let x: Cp = Cp(any_u32("v")); b = b.with_z9_(x.clone()); m.z9_ = Some(x); }
                6 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_z9_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(strip_option = false, skip = false), default = "S { r#fn: None, x1: Some(N(7)) }", build_fn(name = "finish"))]
    pub struct S {
        #[builder(pattern = "mutable", setter(name = "give0"), default)]
        pub r#fn: ::std::option::Option<N>,
        #[builder(setter(skip), field(vis = "pub(super)"))]
        pub x1: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#fn: None, x1: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            x1: dflt.x1.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.x1 == want.x1, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.give0(x.clone()); m.r#fn = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set"), try_setter, custom_constructor, build_fn(name = "finish"), field(public))]
    pub struct S {
        #[builder(try_setter)]
        pub result: Cp,
        #[builder(default, field(vis = "pub(super)"))]
        pub z9_: (u8, u16),
        #[builder(setter(strip_option), default = "7")]
        pub converted: u32,
        #[builder(pattern = "owned", try_setter, vis = "pub(crate)")]
        pub _under: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub result: Option<Cp>,
        pub z9_: Option<(u8, u16)>,
        pub converted: Option<u32>,
        pub _under: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            result: Default::default(),
            z9_: Default::default(),
            converted: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            result: match m.result.clone() { Some(v) => v, None => { return Err("result") } },
            z9_: match m.z9_.clone() { Some(v) => v, None => Default::default() },
            converted: match m.converted.clone() { Some(v) => v, None => 7 },
            _under: match m._under.clone() { Some(v) => v, None => { return Err("_under") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.result == want.result, 100);
                check(got.z9_ == want.z9_, 101);
                check(got.converted == want.converted, 102);
                check(got._under == want._under, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.result == m.result, 200);
        check(b.z9_ == m.z9_, 201);
        check(b.converted == m.converted, 202);
        check(b._under == m._under, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.set_result(x.clone()); m.result = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_result(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.set_z9_(x.clone()); m.z9_ = Some(x); }
                3 => { let x: u32 = any_u32("v"); b = b.set_converted(x.clone()); m.converted = Some(x); }
                4 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_set_converted(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                5 => { let x: N = N(any_u32("v")); b = b.set__under(x.clone()); m._under = Some(x); }
                6 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set__under(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "with"), default, build_fn(name = "finish"), private, derive(Debug))]
    pub struct S {
        #[builder(setter(into, name = "give0"), vis = "pub(crate)")]
        pub b: Vec<N>,
        #[builder(setter(strip_option))]
        pub item: Option<Option<N>>,
        #[builder(pattern = "mutable", setter(prefix = "put", name = "give2"), default)]
        pub err: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Vec<N>>,
        pub item: Option<Option<Option<N>>>,
        pub err: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            item: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.item == want.item, 101);
                check(got.err == want.err, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.item == m.item, 201);
        check(b.err == m.err, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.give0(x.clone()); m.b = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.give0(x.clone()); m.b = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.with_item(x.clone()); m.item = Some(Some(x)); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.give2(x.clone()); m.err = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(into, strip_option))]
    pub struct S {
        #[builder(pattern = "immutable", setter)]
        pub f: Option<Option<N>>,
        #[builder(pattern = "immutable", setter(each = "each1", strip_option), try_setter)]
        pub build_: Option<Vec<N>>,
        #[builder(setter(into))]
        pub converted: String,
        #[builder(pattern = "immutable", setter(strip_option, prefix = "put"))]
        pub result: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<Option<Option<N>>>,
        pub build_: Option<Option<Vec<N>>>,
        pub converted: Option<String>,
        pub result: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            build_: Default::default(),
            converted: Default::default(),
            result: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => { return Err("f") } },
            build_: match m.build_.clone() { Some(v) => v, None => { return Err("build_") } },
            converted: match m.converted.clone() { Some(v) => v, None => { return Err("converted") } },
            result: match m.result.clone() { Some(v) => v, None => { return Err("result") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got.build_ == want.build_, 101);
                check(got.converted == want.converted, 102);
                check(got.result == want.result, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b.build_ == m.build_, 201);
        check(b.converted == m.converted, 202);
        check(b.result == m.result, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.result = x.clone(); m.result = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.f(x.clone()); slots(&b, &m); b = nb; m.f = Some(Some(x)); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.f(x.clone()); slots(&b, &m); b = nb; m.f = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.build_(x.clone()); slots(&b, &m); b = nb; m.build_ = Some(Some(x)); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.build_(x.clone()); slots(&b, &m); b = nb; m.build_ = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_build_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.each1(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.build_.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                6 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(x); }
                7 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                8 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put_result(x.clone()); slots(&b, &m); b = nb; m.result = Some(Some(x)); }
                9 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.put_result(x.clone()); slots(&b, &m); b = nb; m.result = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "set", into), default = "S { item: Some(N(7)), b: Cp(7), converted: String::from(\"lit\"), z9_: N(7) }", custom_constructor, build_fn(vis = "pub(crate)"), no_std)]
    pub struct S {
        #[builder(setter(name = "give0"))]
        pub item: Option<N>,
        #[builder(setter(prefix = "put", name = "give1"), try_setter, default = "Cp(7)")]
        pub b: Cp,
        #[builder(setter(prefix = "put"))]
        pub converted: String,
        #[builder(pattern = "mutable", setter(strip_option, name = "assign3"))]
        pub z9_: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<Option<N>>,
        pub b: Option<Cp>,
        pub converted: Option<String>,
        pub z9_: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            b: Default::default(),
            converted: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { item: Some(N(7)), b: Cp(7), converted: String::from("lit"), z9_: N(7) };
        let _ = &dflt;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
            b: match m.b.clone() { Some(v) => v, None => Cp(7) },
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.b == want.b, 101);
                check(got.converted == want.converted, 102);
                check(got.z9_ == want.z9_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.b == m.b, 201);
        check(b.converted == m.converted, 202);
        check(b.z9_ == m.z9_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 10) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.give0(x.clone()); m.item = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.give0(x.clone()); m.item = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.give1(x.clone()); m.b = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.give1(x.clone()); m.b = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_give1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.put_converted(x.clone()); m.converted = Some(x); }
                6 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut SBuilder = b.put_converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                7 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.assign3(x.clone()); m.z9_ = Some(x); }
                8 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.assign3(x.clone()); m.z9_ = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), default = "S { default_: Some(N(7)), new: 7 }", build_fn(name = "finish"))]
    pub struct S {
        #[builder(pattern = "owned", try_setter)]
        pub default_: Option<N>,
        #[builder(setter, vis = "pub(crate)")]
        pub new: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<Option<N>>,
        pub new: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { default_: Some(N(7)), new: 7 };
        let _ = &dflt;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.new == want.new, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.new == m.new, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.default_(x.clone()); m.default_ = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.default_(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_default_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: u32 = any_u32("v"); b = b.new(x.clone()); m.new = Some(x); }
                4 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.new(x.clone()); m.new = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", name = "Maker", custom_constructor, field(public))]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub __x: N,
        pub z9_: Option<Cp>,
        #[builder(setter(each(name = "each2", into), strip_option), private)]
        pub x1: Option<Vec<N>>,
        #[builder(pattern = "owned", setter(name = "give3", custom))]
        pub Upper: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<N>,
        pub z9_: Option<Option<Cp>>,
        pub x1: Option<Option<Vec<N>>>,
        pub Upper: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            z9_: Default::default(),
            x1: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => { return Err("__x") } },
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
            x1: match m.x1.clone() { Some(v) => v, None => { return Err("x1") } },
            Upper: match m.Upper.clone() { Some(v) => v, None => { return Err("Upper") } },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.z9_ == want.z9_, 101);
                check(got.x1 == want.x1, 102);
                check(got.Upper == want.Upper, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.z9_ == m.z9_, 201);
        check(b.x1 == m.x1, 202);
        check(b.Upper == m.Upper, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: Maker = b.__x(x.clone()); slots(&b, &m); b = nb; m.__x = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try___x(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: Maker = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(x); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: Maker = b.x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(Some(x)); }
                4 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: Maker = b.each2(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.x1.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(into), build_fn(error(validation_error = false)))]
    pub struct S {
        #[builder(setter(into = false, name = "give0"))]
        pub _under: ::std::option::Option<N>,
        #[builder(pattern = "mutable", setter(into), default = "Some(N(7))")]
        pub result: Option<N>,
        #[builder(pattern = "mutable", setter)]
        pub z9_: Option<Option<N>>,
        #[builder(setter(custom), try_setter, default)]
        pub try_it: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<::std::option::Option<N>>,
        pub result: Option<Option<N>>,
        pub z9_: Option<Option<Option<N>>>,
        pub try_it: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            result: Default::default(),
            z9_: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => { return Err("_under") } },
            result: match m.result.clone() { Some(v) => v, None => Some(N(7)) },
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
            try_it: match m.try_it.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.result == want.result, 101);
                check(got.z9_ == want.z9_, 102);
                check(got.try_it == want.try_it, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.result == m.result, 201);
        check(b.z9_ == m.z9_, 202);
        check(b.try_it == m.try_it, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.give0(x.clone()); m._under = Some(x); }
                1 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.result(x.clone()); m.result = Some(x); }
                2 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.result(x.clone()); m.result = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut SBuilder = b.z9_(x.clone()); m.z9_ = Some(x); }
                4 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.z9_(x.clone()); m.z9_ = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(setter(strip_option = false), try_setter, default, build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(name = "give0"))]
        pub __x: Option<N>,
        #[builder(pattern = "mutable", setter(into, strip_option), field(public))]
        pub a: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<Option<N>>,
        pub a: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.a == want.a, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.a == m.a, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.give0(x.clone()); m.__x = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_give0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                3 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "with", skip), build_fn(name = "finish"), no_std)]
    pub struct S {
        #[builder(setter(prefix = "put"), default = "Some(Cp(7))", field(private))]
        pub err: Option<Cp>,
        #[builder(setter(into, strip_option, prefix = "put", name = "assign1"), vis = "pub(crate)")]
        pub b: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<Option<Cp>>,
        pub b: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => Some(Cp(7)) },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.put_err(x.clone()); m.err = Some(x); }
                1 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.assign1(x.clone()); m.b = Some(Some(x)); }
                2 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.assign1(x.clone()); m.b = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(skip), no_std, private)]
    pub struct S {
        #[builder(setter(prefix = "put"))]
        pub value: ::std::option::Option<N>,
        #[builder(default = "None", public)]
        pub f: ::std::option::Option<N>,
        #[builder(pattern = "mutable")]
        pub b: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub value: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            value: match m.value.clone() { Some(v) => v, None => { return Err("value") } },
            f: None,
            b: Default::default(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.value == want.value, 100);
                check(got.f == want.f, 101);
                check(got.b == want.b, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.value == m.value, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.put_value(x.clone()); slots(&b, &m); b = nb; m.value = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into, skip), try_setter, build_fn(name = "finish"), no_std)]
    pub struct S {
        #[builder(setter(into))]
        pub wh: String,
        #[builder(pattern = "owned", try_setter, default)]
        pub f: u32,
        #[builder(pattern = "mutable", setter(prefix = "put", name = "give2"), try_setter, field(public), vis = "pub(crate)")]
        pub build_: Vec<N>,
        #[builder(setter(into, strip_option = false), try_setter, default = "None")]
        pub std: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<String>,
        pub build_: Option<Vec<N>>,
        pub std: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            build_: Default::default(),
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
            f: Default::default(),
            build_: match m.build_.clone() { Some(v) => v, None => { return Err("build_") } },
            std: match m.std.clone() { Some(v) => v, None => None },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.wh == want.wh, 100);
                check(got.f == want.f, 101);
                check(got.build_ == want.build_, 102);
                check(got.std == want.std, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 200);
        check(b.build_ == m.build_, 202);
        check(b.std == m.std, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b.wh(x.clone()); slots(&b, &m); b = nb; m.wh = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let nb: SBuilder = b.wh(x.clone()); slots(&b, &m); b = nb; m.wh = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.give2(x.clone()); m.build_ = Some(x); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.give2(x.clone()); m.build_ = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_give2(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.std(x.clone()); slots(&b, &m); b = nb; m.std = Some(x); }
                6 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.std(x.clone()); slots(&b, &m); b = nb; m.std = Some(xm); check(convs() == c0 + 0, 80); }
                7 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_std(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(into), default, build_fn(name = "finish"), field(vis = "pub(crate)"))]
    pub struct S {
        pub build_with: (u8, u16),
        pub Upper: Option<Cp>,
        #[builder(setter(into = false, strip_option), try_setter, default)]
        pub r#type: Option<N>,
        #[builder(default)]
        pub value: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<(u8, u16)>,
        pub Upper: Option<Option<Cp>>,
        pub r#type: Option<Option<N>>,
        pub value: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            Upper: Default::default(),
            r#type: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            value: match m.value.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.Upper == want.Upper, 101);
                check(got.r#type == want.r#type, 102);
                check(got.value == want.value, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b.Upper == m.Upper, 201);
        check(b.r#type == m.r#type, 202);
        check(b.value == m.value, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: SBuilder = b.build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(x); }
                1 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(x); }
                2 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let nb: SBuilder = b.Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.r#type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(Some(x)); }
                4 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_type(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.value(x.clone()); slots(&b, &m); b = nb; m.value = Some(x); }
                6 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.value(x.clone()); slots(&b, &m); b = nb; m.value = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", create_empty = "blank", custom_constructor, private, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(default)]
        pub try_it: u32,
        #[builder(setter(prefix = "put", into))]
        pub default_: String,
        #[builder(setter(each(name = "each2"), strip_option), field(public), private)]
        pub b: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<u32>,
        pub default_: Option<String>,
        pub b: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            default_: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => Default::default() },
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.default_ == want.default_, 101);
                check(got.b == want.b, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.default_ == m.default_, 201);
        check(b.b == m.b, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); b = b.try_it(x.clone()); m.try_it = Some(x); }
                1 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.put_default_(x.clone()); m.default_ = Some(x); }
                2 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.put_default_(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.b(x.clone()); m.b = Some(Some(x)); }
                4 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Vec<N> = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(into, strip_option, skip = false), default, create_empty = "blank", build_fn(name = "finish"), private)]
    pub struct S {
        #[builder(setter(into), default = "Some(Cp(7))", public)]
        pub f: Option<Cp>,
        #[builder(pattern = "owned", setter(prefix = "put", skip), public)]
        pub err: N,
        #[builder(setter(strip_option, skip), try_setter)]
        pub _under: String,
        #[builder(setter(prefix = "put"), default)]
        pub r#type: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<Option<Cp>>,
        pub r#type: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => Some(Cp(7)) },
            err: dflt.err.clone(),
            _under: dflt._under.clone(),
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got.err == want.err, 101);
                check(got._under == want._under, 102);
                check(got.r#type == want.r#type, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b.r#type == m.r#type, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.f(x.clone()); slots(&b, &m); b = nb; m.f = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.f(x.clone()); slots(&b, &m); b = nb; m.f = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: SBuilder = b.put_type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", skip = false), custom_constructor, build_fn(public), field(public), derive(Debug))]
    pub struct S {
        #[builder(setter(strip_option = false), field(private))]
        pub converted: (u8, u16),
        #[builder(setter(strip_option = false, name = "assign1", into))]
        pub try_it: Option<N>,
        #[builder(setter(into, prefix = "put"), field(ty = "N"))]
        pub __x: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<(u8, u16)>,
        pub try_it: Option<Option<N>>,
        pub __x: N,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            try_it: Default::default(),
            __x: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => { return Err("converted") } },
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            __x: m.__x.clone(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.try_it == want.try_it, 101);
                check(got.__x == want.__x, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.try_it == m.try_it, 201);
        check(b.__x == m.__x, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: N = N(any_u32("v"));
            b.__x = x.clone(); m.__x = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.with_converted(x.clone()); m.converted = Some(x); }
                1 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.assign1(x.clone()); m.try_it = Some(x); }
                2 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.assign1(x.clone()); m.try_it = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x: N = N(any_u32("v")); b = b.put___x(x.clone()); m.__x = x; }
                4 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.put___x(x.clone()); m.__x = xm; check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(strip_option), create_empty = "blank", build_fn(public), no_std, field(public))]
    pub struct S {
        pub _under: u32,
        #[builder(try_setter, field(build = "self.value.unwrap_or(Cp(5))"))]
        pub value: Cp,
        #[builder(setter(prefix = "put", name = "assign2", skip), default)]
        pub r#type: String,
        #[builder(setter(prefix = "put"), default = "Cp(7)", field(vis = "pub(super)"))]
        pub Upper: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<u32>,
        pub value: Option<Cp>,
        pub Upper: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            value: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => { return Err("_under") } },
            value: m.value.unwrap_or(Cp(5)),
            r#type: Default::default(),
            Upper: match m.Upper.clone() { Some(v) => v, None => Cp(7) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.value == want.value, 101);
                check(got.r#type == want.r#type, 102);
                check(got.Upper == want.Upper, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.value == m.value, 201);
        check(b.Upper == m.Upper, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); b = b._under(x.clone()); m._under = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.value(x.clone()); m.value = Some(x); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_value(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.value = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.put_Upper(x.clone()); m.Upper = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option), default = "S { default_: vec![N(7)], z9_: String::from(\"lit\"), _under: Some(Cp(7)), Upper: N(7) }", name = "Maker", build_fn(private))]
    pub struct S {
        #[builder(setter(into), vis = "pub(crate)")]
        pub default_: Vec<N>,
        #[builder(pattern = "mutable", setter(into), public)]
        pub z9_: String,
        #[builder(setter(custom))]
        pub _under: Option<Cp>,
        #[builder(setter(prefix = "put", into), try_setter)]
        pub Upper: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<Vec<N>>,
        pub z9_: Option<String>,
        pub _under: Option<Option<Cp>>,
        pub Upper: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            z9_: Default::default(),
            _under: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { default_: vec![N(7)], z9_: String::from("lit"), _under: Some(Cp(7)), Upper: N(7) };
        let _ = &dflt;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
            _under: match m._under.clone() { Some(v) => v, None => dflt._under.clone() },
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.z9_ == want.z9_, 101);
                check(got._under == want._under, 102);
                check(got.Upper == want.Upper, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.z9_ == m.z9_, 201);
        check(b._under == m._under, 202);
        check(b.Upper == m.Upper, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.default_(x.clone()); m.default_ = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.default_(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut Maker = b.z9_(x.clone()); m.z9_ = Some(x); }
                3 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut Maker = b.z9_(x.clone()); m.z9_ = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x: N = N(any_u32("v")); b = b.put_Upper(x.clone()); m.Upper = Some(x); }
                5 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.put_Upper(x.clone()); m.Upper = Some(xm); check(convs() == c0 + 1, 80); }
                6 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_Upper(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s20 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(skip), build_fn(name = "finish"))]
    pub struct S {
        #[builder(pattern = "immutable", setter(name = "give0"), field(private))]
        pub std: ::std::option::Option<N>,
        #[builder(setter(custom), vis = "pub(crate)")]
        pub err: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => { return Err("std") } },
            err: Default::default(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.err == want.err, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.give0(x.clone()); slots(&b, &m); b = nb; m.std = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s21 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", into), try_setter, no_std)]
    pub struct S {
        #[builder(pattern = "owned", default = "N(7)")]
        pub r#type: N,
        #[builder(pattern = "owned", try_setter, field(build = "self.core.unwrap_or(Cp(5))"))]
        pub core: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<N>,
        pub core: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            core: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => N(7) },
            core: m.core.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.core == want.core, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.core == m.core, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.core = x.clone(); m.core = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); b = b.with_type(x.clone()); m.r#type = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.with_type(x.clone()); m.r#type = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_type(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.with_core(x.clone()); m.core = Some(x); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.with_core(x.clone()); m.core = Some(xm); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_core(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.core = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s22 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "set", into), try_setter, name = "Maker", build_fn(error(validation_error = false)), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(try_setter, field(private))]
        pub err: N,
        #[builder(setter(custom = false))]
        pub a: Cp,
        #[builder(setter(into, strip_option), default)]
        pub core: core::option::Option<N>,
        #[builder(setter(into))]
        pub _under: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<N>,
        pub a: Option<Cp>,
        pub core: Option<core::option::Option<N>>,
        pub _under: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            a: Default::default(),
            core: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => { return Err("err") } },
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            core: match m.core.clone() { Some(v) => v, None => Default::default() },
            _under: match m._under.clone() { Some(v) => v, None => { return Err("_under") } },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.a == want.a, 101);
                check(got.core == want.core, 102);
                check(got._under == want._under, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.a == m.a, 201);
        check(b.core == m.core, 202);
        check(b._under == m._under, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 12) {
                0 => { let x: N = N(any_u32("v")); let _: &mut Maker = b.set_err(x.clone()); m.err = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.set_err(x.clone()); m.err = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_err(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut Maker = b.set_a(x.clone()); m.a = Some(x); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.set_a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                6 => { let x: N = N(any_u32("v")); let _: &mut Maker = b.set_core(x.clone()); m.core = Some(Some(x)); }
                7 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.set_core(x.clone()); m.core = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                8 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_core(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.core = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                9 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut Maker = b.set__under(x.clone()); m._under = Some(x); }
                10 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut Maker = b.set__under(x.clone()); m._under = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s23 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into = false), create_empty = "blank", build_fn(public), derive(Debug))]
    pub struct S {
        #[builder(setter(into = false))]
        pub item: ::std::option::Option<N>,
        #[builder(pattern = "mutable", default, field(vis = "pub(super)"))]
        pub f: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<::std::option::Option<N>>,
        pub f: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            f: match m.f.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.f == want.f, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.f == m.f, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; m.item = Some(x); }
                1 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.f(x.clone()); m.f = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s24 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(strip_option), try_setter, default, name = "Maker", build_fn(error(validation_error = false)), no_std)]
    pub struct S {
        #[builder(setter(strip_option = false), field(vis = "pub(super)"))]
        pub converted: String,
        #[builder(pattern = "immutable", setter(into), try_setter)]
        pub f: N,
        #[builder(pattern = "mutable", try_setter)]
        pub wh: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<String>,
        pub f: Option<N>,
        pub wh: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            f: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
            wh: match m.wh.clone() { Some(v) => v, None => dflt.wh.clone() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.f == want.f, 101);
                check(got.wh == want.wh, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.f == m.f, 201);
        check(b.wh == m.wh, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.converted(x.clone()); m.converted = Some(x); }
                1 => { let x: N = N(any_u32("v")); let nb: Maker = b.f(x.clone()); slots(&b, &m); b = nb; m.f = Some(x); }
                2 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: Maker = b.f(x.clone()); slots(&b, &m); b = nb; m.f = Some(xm); check(convs() == c0 + 1, 80); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_f(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                4 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut Maker = b.wh(x.clone()); m.wh = Some(x); }
                5 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_wh(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s25 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(into, strip_option), try_setter, default, build_fn(error(validation_error = false)), no_std)]
    pub struct S {
        #[builder(setter(into, strip_option = false), try_setter, default = "(7, 8)")]
        pub try_it: (u8, u16),
        #[builder(pattern = "mutable", setter(name = "assign1"), try_setter, default = "N(7)")]
        pub r#type: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<(u8, u16)>,
        pub r#type: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => (7, 8) },
            r#type: match m.r#type.clone() { Some(v) => v, None => N(7) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.r#type == want.r#type, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.r#type == m.r#type, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.try_it(x.clone()); m.try_it = Some(x); }
                1 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.assign1(x.clone()); m.r#type = Some(x); }
                2 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.assign1(x.clone()); m.r#type = Some(xm); check(convs() == c0 + 1, 80); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_assign1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s26 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(prefix = "set"), custom_constructor, no_std, field(public))]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub Upper: (u8, u16),
        #[builder(pattern = "immutable", setter(skip), vis = "pub(crate)")]
        pub __x: Vec<N>,
        #[builder(pattern = "mutable", setter)]
        pub value: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub Upper: Option<(u8, u16)>,
        pub value: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            Upper: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            Upper: match m.Upper.clone() { Some(v) => v, None => { return Err("Upper") } },
            __x: Default::default(),
            value: match m.value.clone() { Some(v) => v, None => { return Err("value") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.Upper == want.Upper, 100);
                check(got.__x == want.__x, 101);
                check(got.value == want.value, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.Upper == m.Upper, 200);
        check(b.value == m.value, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: SBuilder = b.set_Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(x); }
                1 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.set_value(x.clone()); m.value = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s27 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set", strip_option), default = "S { new: vec![N(7)], build_with: N(7), converted: 7, result: Some(vec![N(7)]) }", custom_constructor, build_fn(public), private)]
    pub struct S {
        #[builder(pattern = "immutable", setter(into = false), field(vis = "pub(super)"), private)]
        pub new: Vec<N>,
        #[builder(pattern = "owned", setter(prefix = "put"))]
        pub build_with: N,
        #[builder(setter(name = "give2"), field(ty = "Cp", build = "self.converted.0"))]
        pub converted: u32,
        #[builder(pattern = "immutable", setter(each(name = "each3", into), strip_option), try_setter)]
        pub result: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<Vec<N>>,
        pub build_with: Option<N>,
        pub converted: Cp,
        pub result: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            build_with: Default::default(),
            converted: Default::default(),
            result: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { new: vec![N(7)], build_with: N(7), converted: 7, result: Some(vec![N(7)]) };
        let _ = &dflt;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
            converted: m.converted.0,
            result: match m.result.clone() { Some(v) => v, None => dflt.result.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.build_with == want.build_with, 101);
                check(got.converted == want.converted, 102);
                check(got.result == want.result, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b.build_with == m.build_with, 201);
        check(b.converted == m.converted, 202);
        check(b.result == m.result, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Cp = Cp(any_u32("v"));
            b.converted = x.clone(); m.converted = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.result = x.clone(); m.result = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.set_new(x.clone()); slots(&b, &m); b = nb; m.new = Some(x); }
                1 => { let x: N = N(any_u32("v")); b = b.put_build_with(x.clone()); m.build_with = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.give2(x.clone()); m.converted = x; }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.set_result(x.clone()); slots(&b, &m); b = nb; m.result = Some(Some(x)); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_set_result(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.each3(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.result.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s28 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(into), default, name = "Maker", custom_constructor, build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(into))]
        pub b: Option<N>,
        #[builder(setter(skip), default)]
        pub _under: Option<N>,
        #[builder(pattern = "immutable", setter(name = "assign2"), try_setter, default = "None")]
        pub converted: ::std::option::Option<N>,
        #[builder(setter(name = "give3", each(name = "each3", into)), try_setter)]
        pub build_: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Option<N>>,
        pub converted: Option<::std::option::Option<N>>,
        pub build_: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            converted: Default::default(),
            build_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            _under: Default::default(),
            converted: match m.converted.clone() { Some(v) => v, None => None },
            build_: match m.build_.clone() { Some(v) => v, None => dflt.build_.clone() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got._under == want._under, 101);
                check(got.converted == want.converted, 102);
                check(got.build_ == want.build_, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.converted == m.converted, 202);
        check(b.build_ == m.build_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 10) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: Maker = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: Maker = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: Maker = b.assign2(x.clone()); slots(&b, &m); b = nb; m.converted = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let nb: Maker = b.assign2(x.clone()); slots(&b, &m); b = nb; m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_assign2(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: Maker = b.give3(x.clone()); slots(&b, &m); b = nb; m.build_ = Some(x); }
                6 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: Maker = b.give3(x.clone()); slots(&b, &m); b = nb; m.build_ = Some(xm); check(convs() == c0 + 0, 80); }
                7 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_give3(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                8 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: Maker = b.each3(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.build_, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s29 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", into = false), default = "S { build_: (7, 8), self_: String::from(\"lit\") }", name = "Maker", build_fn(name = "finish"), private, field(public))]
    pub struct S {
        #[builder(setter(into, prefix = "put"))]
        pub build_: (u8, u16),
        #[builder(pattern = "immutable", setter(into, name = "give1"))]
        pub self_: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_: Option<(u8, u16)>,
        pub self_: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { build_: (7, 8), self_: String::from("lit") };
        let _ = &dflt;
        Ok(S {
            build_: match m.build_.clone() { Some(v) => v, None => dflt.build_.clone() },
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_ == want.build_, 100);
                check(got.self_ == want.self_, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.build_ == m.build_, 200);
        check(b.self_ == m.self_, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.put_build_(x.clone()); m.build_ = Some(x); }
                1 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: Maker = b.give1(x.clone()); slots(&b, &m); b = nb; m.self_ = Some(x); }
                2 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let nb: Maker = b.give1(x.clone()); slots(&b, &m); b = nb; m.self_ = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s30 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with", strip_option = false), try_setter, default = "S { default_: Some(N(7)), f: Some(Some(Cp(7))), build_: None, a: Some(Cp(7)) }")]
    pub struct S {
        #[builder(vis = "pub(crate)")]
        pub default_: Option<N>,
        #[builder(pattern = "owned", setter(into = false, name = "assign1"), field(ty = "Option<Option<Cp>>"))]
        pub f: Option<Option<Cp>>,
        #[builder(setter(strip_option = false, prefix = "put"))]
        pub build_: ::std::option::Option<N>,
        #[builder(pattern = "owned")]
        pub a: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<Option<N>>,
        pub f: Option<Option<Cp>>,
        pub build_: Option<::std::option::Option<N>>,
        pub a: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            f: Default::default(),
            build_: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { default_: Some(N(7)), f: Some(Some(Cp(7))), build_: None, a: Some(Cp(7)) };
        let _ = &dflt;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
            f: m.f.clone(),
            build_: match m.build_.clone() { Some(v) => v, None => dflt.build_.clone() },
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.f == want.f, 101);
                check(got.build_ == want.build_, 102);
                check(got.a == want.a, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.f == m.f, 201);
        check(b.build_ == m.build_, 202);
        check(b.a == m.a, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.f = x.clone(); m.f = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.with_default_(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_with_default_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; b = b.assign1(x.clone()); m.f = x; }
                3 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.put_build_(x.clone()); slots(&b, &m); b = nb; m.build_ = Some(x); }
                4 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_put_build_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.with_a(x.clone()); m.a = Some(x); }
                6 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_with_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s31 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", build_fn(error(validation_error = false)), no_std)]
    pub struct S {
        #[builder(pattern = "owned")]
        pub _under: u32,
        #[builder(setter(prefix = "put", custom))]
        pub err: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<u32>,
        pub err: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => { return Err("_under") } },
            err: match m.err.clone() { Some(v) => v, None => { return Err("err") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.err == want.err, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.err == m.err, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: u32 = any_u32("v"); b = b._under(x.clone()); m._under = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s32 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter, default = "S { r#type: Cp(7), result: Some(Cp(7)), self_: Some(Cp(7)) }", build_fn(public))]
    pub struct S {
        #[builder(setter(prefix = "put"), default, field(public))]
        pub r#type: Cp,
        #[builder(pattern = "mutable", setter(name = "assign1"), try_setter, default)]
        pub result: Option<Cp>,
        #[builder(pattern = "owned", setter(prefix = "put"), default)]
        pub self_: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<Cp>,
        pub result: Option<Option<Cp>>,
        pub self_: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            result: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#type: Cp(7), result: Some(Cp(7)), self_: Some(Cp(7)) };
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            result: match m.result.clone() { Some(v) => v, None => Default::default() },
            self_: match m.self_.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.result == want.result, 101);
                check(got.self_ == want.self_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.result == m.result, 201);
        check(b.self_ == m.self_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.put_type(x.clone()); m.r#type = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_type(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.assign1(x.clone()); m.result = Some(x); }
                3 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_assign1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.put_self_(x.clone()); m.self_ = Some(x); }
                5 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_put_self_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s33 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter, default = "S { r#fn: String::from(\"lit\"), value: Some(vec![N(7)]) }", custom_constructor, build_fn(name = "finish"), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(default)]
        pub r#fn: String,
        #[builder(pattern = "mutable", setter(strip_option, name = "give1"), default)]
        pub value: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<String>,
        pub value: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#fn: String::from("lit"), value: Some(vec![N(7)]) };
        let _ = &dflt;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            value: match m.value.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.value == want.value, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.value == m.value, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.r#fn(x.clone()); m.r#fn = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.give1(x.clone()); m.value = Some(Some(x)); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_give1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.value = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s34 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(prefix = "set"), default = "S { build_with: String::from(\"lit\"), default_: (7, 8), self_: Cp(7) }", build_fn(private))]
    pub struct S {
        #[builder(try_setter)]
        pub build_with: String,
        #[builder(setter(prefix = "put", into), try_setter)]
        pub default_: (u8, u16),
        #[builder(field(private))]
        pub self_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<String>,
        pub default_: Option<(u8, u16)>,
        pub self_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            default_: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { build_with: String::from("lit"), default_: (7, 8), self_: Cp(7) };
        let _ = &dflt;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.default_ == want.default_, 101);
                check(got.self_ == want.self_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b.default_ == m.default_, 201);
        check(b.self_ == m.self_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.set_build_with(x.clone()); m.build_with = Some(x); }
                1 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.put_default_(x.clone()); m.default_ = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.set_self_(x.clone()); m.self_ = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s35 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "with", into = false, skip), try_setter, default, name = "Maker", create_empty = "blank", build_fn(name = "finish", vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(into))]
        pub try_it: String,
        #[builder(setter, field(ty = "Option<Cp>", build = "std::mem::size_of_val(&self.self_) as u32"), public)]
        pub self_: u32,
        #[builder(setter(each(name = "each2", into), strip_option), default)]
        pub r#type: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<String>,
        pub self_: Option<Cp>,
        pub r#type: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            self_: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
            self_: std::mem::size_of_val(&m.self_) as u32,
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.self_ == want.self_, 101);
                check(got.r#type == want.r#type, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.self_ == m.self_, 201);
        check(b.r#type == m.r#type, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.with_try_it(x.clone()); m.try_it = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.with_try_it(x.clone()); m.try_it = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.with_self_(x.clone()); m.self_ = x; }
                3 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_with_self_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                4 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.with_type(x.clone()); m.r#type = Some(Some(x)); }
                5 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Coll = (m.r#type.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s36 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), default = "S { item: 7, new: Some(N(7)) }", private)]
    pub struct S {
        #[builder(pattern = "owned", default)]
        pub item: u32,
        #[builder(setter(strip_option = false), default, field(private))]
        pub new: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<u32>,
        pub new: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { item: 7, new: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => Default::default() },
            new: match m.new.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.new == want.new, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.new == m.new, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); b = b.item(x.clone()); m.item = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.item(x.clone()); m.item = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.new(x.clone()); m.new = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.new(x.clone()); m.new = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s37 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", build_fn(name = "finish"), no_std)]
    pub struct S {
        #[builder(pattern = "immutable", setter(into, strip_option = false), try_setter)]
        pub x1: N,
        #[builder(setter(each(name = "each1", into), strip_option), try_setter, default)]
        pub std: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub x1: Option<N>,
        pub std: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            x1: Default::default(),
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            x1: match m.x1.clone() { Some(v) => v, None => { return Err("x1") } },
            std: match m.std.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.x1 == want.x1, 100);
                check(got.std == want.std, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.x1 == m.x1, 200);
        check(b.std == m.std, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_x1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.std(x.clone()); m.std = Some(Some(x)); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_std(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                5 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.each1(x.clone()); { let c: &mut Vec<N> = (m.std.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s38 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(into = false, strip_option, skip), build_fn(name = "finish"), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(try_setter)]
        pub new: Cp,
        #[builder(setter(strip_option), try_setter)]
        pub wh: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            new: Default::default(),
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.wh == want.wh, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.wh(x.clone()); m.wh = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_wh(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s39 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set", strip_option = false, skip), try_setter, build_fn(error(validation_error = false)))]
    pub struct S {
        #[builder(setter(into), try_setter, default = "String::from(\"lit\")")]
        pub converted: String,
        #[builder(setter(strip_option), try_setter)]
        pub build_with: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<String>,
        pub build_with: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            build_with: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => String::from("lit") },
            build_with: match m.build_with.clone() { Some(v) => v, None => { return Err("build_with") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.build_with == want.build_with, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.build_with == m.build_with, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.set_converted(x.clone()); m.converted = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.set_converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: N = N(any_u32("v")); b = b.set_build_with(x.clone()); m.build_with = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_build_with(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s40 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into = false, skip), default = "S { r#fn: 7, Upper: Some(None), value: vec![N(7)], converted: Some(Cp(7)) }", custom_constructor, build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter, default, field(public))]
        pub r#fn: u32,
        #[builder(setter(into, skip = false), default = "Some(None)")]
        pub Upper: Option<Option<N>>,
        #[builder(try_setter, default = "vec![N(7)]")]
        pub value: Vec<N>,
        #[builder(pattern = "owned", setter(into, strip_option))]
        pub converted: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<u32>,
        pub Upper: Option<Option<Option<N>>>,
        pub converted: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            Upper: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#fn: 7, Upper: Some(None), value: vec![N(7)], converted: Some(Cp(7)) };
        let _ = &dflt;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            Upper: match m.Upper.clone() { Some(v) => v, None => Some(None) },
            value: vec![N(7)],
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.Upper == want.Upper, 101);
                check(got.value == want.value, 102);
                check(got.converted == want.converted, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.Upper == m.Upper, 201);
        check(b.converted == m.converted, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); b = b.r#fn(x.clone()); m.r#fn = Some(x); }
                1 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.Upper(x.clone()); m.Upper = Some(x); }
                2 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.Upper(x.clone()); m.Upper = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.converted(x.clone()); m.converted = Some(Some(x)); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.converted(x.clone()); m.converted = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s41 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(strip_option, skip = false), create_empty = "blank", build_fn(vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "mutable", setter(into, strip_option, prefix = "put"), default = "N(7)")]
        pub value: N,
        #[builder(setter(prefix = "put", strip_option))]
        pub a: core::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub value: Option<N>,
        pub a: Option<core::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            value: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            value: match m.value.clone() { Some(v) => v, None => N(7) },
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.value == want.value, 100);
                check(got.a == want.a, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.value == m.value, 200);
        check(b.a == m.a, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.put_value(x.clone()); m.value = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.put_value(x.clone()); m.value = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s42 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { z9_: vec![N(7)], core: None, Upper: N(7), build_with: Some(vec![N(7)]) }", build_fn(private), private)]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub z9_: Vec<N>,
        #[builder(setter(into), default)]
        pub core: ::std::option::Option<N>,
        #[builder(setter(into, skip), public)]
        pub Upper: N,
        #[builder(pattern = "immutable", setter(strip_option, name = "assign3", each(name = "each3")), try_setter)]
        pub build_with: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<Vec<N>>,
        pub core: Option<::std::option::Option<N>>,
        pub build_with: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            core: Default::default(),
            build_with: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { z9_: vec![N(7)], core: None, Upper: N(7), build_with: Some(vec![N(7)]) };
        let _ = &dflt;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
            core: match m.core.clone() { Some(v) => v, None => Default::default() },
            Upper: dflt.Upper.clone(),
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.core == want.core, 101);
                check(got.Upper == want.Upper, 102);
                check(got.build_with == want.build_with, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.core == m.core, 201);
        check(b.build_with == m.build_with, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(x); }
                1 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.core(x.clone()); slots(&b, &m); b = nb; m.core = Some(x); }
                2 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.core(x.clone()); slots(&b, &m); b = nb; m.core = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.assign3(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(Some(x)); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_assign3(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.each3(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.build_with.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s43 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", name = "Maker", custom_constructor)]
    pub struct S {
        #[builder(setter(strip_option = false))]
        pub core: Option<N>,
        #[builder(setter(into), try_setter, default)]
        pub err: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<Option<N>>,
        pub err: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.err == want.err, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.err == m.err, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut Maker = b.core(x.clone()); m.core = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut Maker = b.err(x.clone()); m.err = Some(x); }
                2 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut Maker = b.err(x.clone()); m.err = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_err(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s44 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(prefix = "with"), default, custom_constructor, private, field(vis = "pub(crate)"), derive(Debug))]
    pub struct S {
        #[builder(setter(into, prefix = "put"))]
        pub a: ::std::option::Option<N>,
        #[builder(setter(custom))]
        pub default_: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub default_: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.default_ == want.default_, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.default_ == m.default_, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.put_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.put_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s45 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with"), no_std, private, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(into = false))]
        pub a: Vec<N>,
        #[builder(setter(skip), default, field(public))]
        pub std: Option<Cp>,
        #[builder(setter(each(name = "each2")), field(public))]
        pub err: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub err: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            std: Default::default(),
            err: match m.err.clone() { Some(v) => v, None => { return Err("err") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.std == want.std, 101);
                check(got.err == want.err, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.err == m.err, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.with_a(x.clone()); m.a = Some(x); }
                1 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.with_err(x.clone()); m.err = Some(x); }
                2 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.err, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s46 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set", into = false, strip_option), try_setter, build_fn(name = "finish"), field(public))]
    pub struct S {
        #[builder(pattern = "immutable", setter(prefix = "put", name = "assign0"), default)]
        pub r#fn: N,
        #[builder(setter(into, strip_option, prefix = "put"), try_setter, field(vis = "pub(super)"))]
        pub self_: String,
        #[builder(setter(custom))]
        pub item: Option<N>,
        #[builder(setter(strip_option = false, custom), field(vis = "pub(super)"))]
        pub b: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<N>,
        pub self_: Option<String>,
        pub item: Option<Option<N>>,
        pub b: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            self_: Default::default(),
            item: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            self_: match m.self_.clone() { Some(v) => v, None => { return Err("self_") } },
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.self_ == want.self_, 101);
                check(got.item == want.item, 102);
                check(got.b == want.b, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.self_ == m.self_, 201);
        check(b.item == m.item, 202);
        check(b.b == m.b, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_assign0(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.put_self_(x.clone()); m.self_ = Some(x); }
                3 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.put_self_(x.clone()); m.self_ = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s47 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default, custom_constructor, build_fn(private), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "immutable", setter(name = "give0"))]
        pub b: Cp,
        #[builder(setter(strip_option), try_setter)]
        pub converted: Option<N>,
        #[builder(setter(name = "give2"))]
        pub err: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub converted: Option<Option<N>>,
        pub err: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            converted: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            err: match m.err.clone() { Some(v) => v, None => dflt.err.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.converted == want.converted, 101);
                check(got.err == want.err, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.converted == m.converted, 201);
        check(b.err == m.err, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.give0(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.converted(x.clone()); slots(&b, &m); b = nb; m.converted = Some(Some(x)); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_converted(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b.give2(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s48 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(into), try_setter, custom_constructor, build_fn(name = "finish", error(validation_error = false)))]
    pub struct S {
        #[builder(setter(name = "assign0"))]
        pub x1: Vec<N>,
        #[builder(setter(skip))]
        pub __x: Vec<N>,
        #[builder(pattern = "owned", setter(name = "assign2", each(name = "each2", into), strip_option))]
        pub item: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub x1: Option<Vec<N>>,
        pub item: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            x1: Default::default(),
            item: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            x1: match m.x1.clone() { Some(v) => v, None => { return Err("x1") } },
            __x: Default::default(),
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.x1 == want.x1, 100);
                check(got.__x == want.__x, 101);
                check(got.item == want.item, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.x1 == m.x1, 200);
        check(b.item == m.item, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.assign0(x.clone()); m.x1 = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.assign0(x.clone()); m.x1 = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_assign0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.assign2(x.clone()); m.item = Some(Some(x)); }
                4 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Coll = (m.item.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s49 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(prefix = "with", into, strip_option, skip), try_setter, default, create_empty = "blank", custom_constructor, build_fn(public))]
    pub struct S {
        #[builder(setter(into), default = "vec![N(7)]", private)]
        pub result: Vec<N>,
        #[builder(pattern = "mutable", try_setter, default)]
        pub core: Cp,
        #[builder(setter(strip_option), default = "Some(None)")]
        pub build_with: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub result: Option<Vec<N>>,
        pub build_with: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            result: Default::default(),
            build_with: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            result: match m.result.clone() { Some(v) => v, None => vec![N(7)] },
            core: Default::default(),
            build_with: match m.build_with.clone() { Some(v) => v, None => Some(None) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.result == want.result, 100);
                check(got.core == want.core, 101);
                check(got.build_with == want.build_with, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.result == m.result, 200);
        check(b.build_with == m.build_with, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.with_result(x.clone()); slots(&b, &m); b = nb; m.result = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.with_result(x.clone()); slots(&b, &m); b = nb; m.result = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_with_result(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.with_build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(Some(x)); }
                4 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.with_build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                5 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_with_build_with(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s50 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(create_empty = "blank", field(public))]
    pub struct S {
        #[builder(pattern = "immutable", setter(strip_option = false))]
        pub try_it: N,
        #[builder(setter(each(name = "each1"), strip_option), default)]
        pub r#fn: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<N>,
        pub r#fn: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.r#fn == want.r#fn, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.r#fn == m.r#fn, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.r#fn(x.clone()); m.r#fn = Some(Some(x)); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Vec<N> = (m.r#fn.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s51 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(skip), name = "Maker", custom_constructor, build_fn(error(validation_error = false)), derive(Debug))]
    pub struct S {
        pub b: Option<Option<N>>,
        #[builder(setter(custom), private)]
        pub err: (u8, u16),
        #[builder(pattern = "immutable", setter(prefix = "put"))]
        pub new: N,
        #[builder(try_setter, field(public), vis = "pub(crate)")]
        pub try_it: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: Default::default(),
            err: Default::default(),
            new: match m.new.clone() { Some(v) => v, None => { return Err("new") } },
            try_it: Default::default(),
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.err == want.err, 101);
                check(got.new == want.new, 102);
                check(got.try_it == want.try_it, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: N = N(any_u32("v")); let nb: Maker = b.put_new(x.clone()); slots(&b, &m); b = nb; m.new = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s52 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, skip), default = "S { core: vec![N(7)], item: Some(None), r#type: N(7) }", name = "Maker", custom_constructor)]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub core: Vec<N>,
        #[builder(setter(skip))]
        pub item: Option<Option<N>>,
        #[builder(setter(prefix = "put"), default = "N(7)")]
        pub r#type: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { core: vec![N(7)], item: Some(None), r#type: N(7) };
        let _ = &dflt;
        Ok(S {
            core: dflt.core.clone(),
            item: dflt.item.clone(),
            r#type: match m.r#type.clone() { Some(v) => v, None => N(7) },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.item == want.item, 101);
                check(got.r#type == want.r#type, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: N = N(any_u32("v")); b = b.put_type(x.clone()); m.r#type = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.put_type(x.clone()); m.r#type = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s53 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with", into = false), name = "Maker", create_empty = "blank", build_fn(name = "finish"))]
    pub struct S {
        #[builder(try_setter)]
        pub __x: N,
        #[builder(pattern = "immutable", setter(into, name = "assign1"), try_setter, default = "N(7)")]
        pub wh: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<N>,
        pub wh: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => { return Err("__x") } },
            wh: match m.wh.clone() { Some(v) => v, None => N(7) },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.wh == want.wh, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.wh == m.wh, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: Maker = b.with___x(x.clone()); slots(&b, &m); b = nb; m.__x = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_with___x(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let nb: Maker = b.assign1(x.clone()); slots(&b, &m); b = nb; m.wh = Some(x); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: Maker = b.assign1(x.clone()); slots(&b, &m); b = nb; m.wh = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_assign1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s54 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "set", into), default, custom_constructor, field(public))]
    pub struct S {
        #[builder(setter(into))]
        pub item: Option<Option<N>>,
        #[builder(try_setter, default)]
        pub result: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<Option<Option<N>>>,
        pub result: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            result: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
            result: match m.result.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.result == want.result, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.result == m.result, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.result = x.clone(); m.result = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.set_item(x.clone()); m.item = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.set_item(x.clone()); m.item = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.set_result(x.clone()); m.result = Some(x); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.set_result(x.clone()); m.result = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_set_result(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s55 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", create_empty = "blank", build_fn(public), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(default)]
        pub z9_: u32,
        #[builder(setter(into), try_setter, default)]
        pub r#type: Option<Cp>,
        #[builder(setter(strip_option = false), field(build = "self.err.unwrap_or(Cp(5))"))]
        pub err: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<u32>,
        pub r#type: Option<Option<Cp>>,
        pub err: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            r#type: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => Default::default() },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            err: m.err.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.r#type == want.r#type, 101);
                check(got.err == want.err, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.r#type == m.r#type, 201);
        check(b.err == m.err, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(x); }
                1 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.r#type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(x); }
                2 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let nb: SBuilder = b.r#type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_type(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.err(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s56 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", strip_option), try_setter, default = "S { wh: Some(N(7)), std: (7, 8), b: 7, z9_: Cp(7) }", create_empty = "blank", build_fn(name = "finish"), private)]
    pub struct S {
        #[builder(setter(into = false, prefix = "put"))]
        pub wh: Option<N>,
        #[builder(setter(strip_option), try_setter, default)]
        pub std: (u8, u16),
        #[builder(setter(prefix = "put"))]
        pub b: u32,
        #[builder(pattern = "mutable", setter(custom), field(vis = "pub(super)"))]
        pub z9_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<Option<N>>,
        pub std: Option<(u8, u16)>,
        pub b: Option<u32>,
        pub z9_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            std: Default::default(),
            b: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { wh: Some(N(7)), std: (7, 8), b: 7, z9_: Cp(7) };
        let _ = &dflt;
        Ok(S {
            wh: match m.wh.clone() { Some(v) => v, None => dflt.wh.clone() },
            std: match m.std.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.wh == want.wh, 100);
                check(got.std == want.std, 101);
                check(got.b == want.b, 102);
                check(got.z9_ == want.z9_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 200);
        check(b.std == m.std, 201);
        check(b.b == m.b, 202);
        check(b.z9_ == m.z9_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.put_wh(x.clone()); m.wh = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_wh(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.with_std(x.clone()); m.std = Some(x); }
                3 => { let x: u32 = any_u32("v"); b = b.put_b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_put_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s57 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set"), build_fn(error(validation_error = false), public))]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub b: N,
        #[builder(setter(custom = false), default = "N(7)")]
        pub r#fn: N,
        #[builder(pattern = "owned", setter(strip_option), field(public))]
        pub z9_: Option<N>,
        #[builder(setter)]
        pub core: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<N>,
        pub r#fn: Option<N>,
        pub z9_: Option<Option<N>>,
        pub core: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            r#fn: Default::default(),
            z9_: Default::default(),
            core: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => N(7) },
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.r#fn == want.r#fn, 101);
                check(got.z9_ == want.z9_, 102);
                check(got.core == want.core, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.r#fn == m.r#fn, 201);
        check(b.z9_ == m.z9_, 202);
        check(b.core == m.core, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.core = x.clone(); m.core = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.set_b(x.clone()); m.b = Some(x); }
                1 => { let x: N = N(any_u32("v")); b = b.set_fn(x.clone()); m.r#fn = Some(x); }
                2 => { let x: N = N(any_u32("v")); b = b.set_z9_(x.clone()); m.z9_ = Some(Some(x)); }
                3 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.set_core(x.clone()); m.core = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s58 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(strip_option = false), try_setter, default = "S { try_it: Some(None), item: None, f: None, b: 7 }", custom_constructor, build_fn(error(validation_error = false)))]
    pub struct S {
        #[builder(pattern = "immutable", setter(into))]
        pub try_it: Option<Option<N>>,
        #[builder(setter(into = false, strip_option, each = "each1"))]
        pub item: Option<Coll>,
        pub f: ::std::option::Option<N>,
        #[builder(try_setter)]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<Option<Option<N>>>,
        pub item: Option<Option<Coll>>,
        pub f: Option<::std::option::Option<N>>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            item: Default::default(),
            f: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { try_it: Some(None), item: None, f: None, b: 7 };
        let _ = &dflt;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.item == want.item, 101);
                check(got.f == want.f, 102);
                check(got.b == want.b, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.item == m.item, 201);
        check(b.f == m.f, 202);
        check(b.b == m.b, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let nb: SBuilder = b.try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.item(x.clone()); m.item = Some(Some(x)); }
                3 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.each1(x.clone()); { let c: &mut Coll = (m.item.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                4 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.f(x.clone()); m.f = Some(x); }
                5 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_f(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                6 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                7 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s59 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter, build_fn(name = "finish"), private, field(public))]
    pub struct S {
        #[builder(setter(name = "give0"), try_setter)]
        pub wh: Option<N>,
        #[builder(setter(name = "assign1", skip))]
        pub core: Option<Option<N>>,
        #[builder(setter(into))]
        pub _under: String,
        #[builder(setter(name = "assign3", each = "each3", strip_option), field(public))]
        pub f: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<Option<N>>,
        pub _under: Option<String>,
        pub f: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            _under: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
            core: Default::default(),
            _under: match m._under.clone() { Some(v) => v, None => { return Err("_under") } },
            f: match m.f.clone() { Some(v) => v, None => { return Err("f") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.wh == want.wh, 100);
                check(got.core == want.core, 101);
                check(got._under == want._under, 102);
                check(got.f == want.f, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 200);
        check(b._under == m._under, 202);
        check(b.f == m.f, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.give0(x.clone()); slots(&b, &m); b = nb; m.wh = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_give0(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b._under(x.clone()); slots(&b, &m); b = nb; m._under = Some(x); }
                3 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let nb: SBuilder = b._under(x.clone()); slots(&b, &m); b = nb; m._under = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.assign3(x.clone()); slots(&b, &m); b = nb; m.f = Some(Some(x)); }
                5 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.each3(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = (m.f.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub const COUNT: usize = 60;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(2 + extra, false),
        1 => s1::run(2 + extra, false),
        2 => s2::run(2 + extra, false),
        3 => s3::run(2 + extra, false),
        4 => s4::run(2 + extra, false),
        5 => s5::run(2 + extra, false),
        6 => s6::run(2 + extra, false),
        7 => s7::run(2 + extra, false),
        8 => s8::run(2 + extra, false),
        9 => s9::run(2 + extra, false),
        10 => s10::run(2 + extra, false),
        11 => s11::run(2 + extra, false),
        12 => s12::run(2 + extra, false),
        13 => s13::run(2 + extra, false),
        14 => s14::run(2 + extra, false),
        15 => s15::run(2 + extra, false),
        16 => s16::run(2 + extra, false),
        17 => s17::run(2 + extra, false),
        18 => s18::run(2 + extra, false),
        19 => s19::run(2 + extra, false),
        20 => s20::run(2 + extra, false),
        21 => s21::run(2 + extra, false),
        22 => s22::run(2 + extra, false),
        23 => s23::run(2 + extra, false),
        24 => s24::run(2 + extra, false),
        25 => s25::run(2 + extra, false),
        26 => s26::run(2 + extra, false),
        27 => s27::run(2 + extra, false),
        28 => s28::run(2 + extra, false),
        29 => s29::run(2 + extra, false),
        30 => s30::run(2 + extra, false),
        31 => s31::run(2 + extra, false),
        32 => s32::run(2 + extra, false),
        33 => s33::run(2 + extra, false),
        34 => s34::run(2 + extra, false),
        35 => s35::run(2 + extra, false),
        36 => s36::run(2 + extra, false),
        37 => s37::run(2 + extra, false),
        38 => s38::run(2 + extra, false),
        39 => s39::run(2 + extra, false),
        40 => s40::run(2 + extra, false),
        41 => s41::run(2 + extra, false),
        42 => s42::run(2 + extra, false),
        43 => s43::run(2 + extra, false),
        44 => s44::run(2 + extra, false),
        45 => s45::run(2 + extra, false),
        46 => s46::run(2 + extra, false),
        47 => s47::run(2 + extra, false),
        48 => s48::run(2 + extra, false),
        49 => s49::run(2 + extra, false),
        50 => s50::run(2 + extra, false),
        51 => s51::run(2 + extra, false),
        52 => s52::run(2 + extra, false),
        53 => s53::run(2 + extra, false),
        54 => s54::run(2 + extra, false),
        55 => s55::run(2 + extra, false),
        56 => s56::run(2 + extra, false),
        57 => s57::run(2 + extra, false),
        58 => s58::run(2 + extra, false),
        _ => s59::run(2 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        19 => s19::run(k, true),
        20 => s20::run(k, true),
        21 => s21::run(k, true),
        22 => s22::run(k, true),
        23 => s23::run(k, true),
        24 => s24::run(k, true),
        25 => s25::run(k, true),
        26 => s26::run(k, true),
        27 => s27::run(k, true),
        28 => s28::run(k, true),
        29 => s29::run(k, true),
        30 => s30::run(k, true),
        31 => s31::run(k, true),
        32 => s32::run(k, true),
        33 => s33::run(k, true),
        34 => s34::run(k, true),
        35 => s35::run(k, true),
        36 => s36::run(k, true),
        37 => s37::run(k, true),
        38 => s38::run(k, true),
        39 => s39::run(k, true),
        40 => s40::run(k, true),
        41 => s41::run(k, true),
        42 => s42::run(k, true),
        43 => s43::run(k, true),
        44 => s44::run(k, true),
        45 => s45::run(k, true),
        46 => s46::run(k, true),
        47 => s47::run(k, true),
        48 => s48::run(k, true),
        49 => s49::run(k, true),
        50 => s50::run(k, true),
        51 => s51::run(k, true),
        52 => s52::run(k, true),
        53 => s53::run(k, true),
        54 => s54::run(k, true),
        55 => s55::run(k, true),
        56 => s56::run(k, true),
        57 => s57::run(k, true),
        58 => s58::run(k, true),
        _ => s59::run(k, true),
    }
}
