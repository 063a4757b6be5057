// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "with", into), try_setter, default, custom_constructor)]
    pub struct S {
        #[builder(setter(into), default = "Some(Cp(7))")]
        pub r#type: Option<Cp>,
        #[builder(setter(strip_option), try_setter, default, field(private))]
        pub self_: ::std::option::Option<N>,
        #[builder(setter(strip_option = false, custom), default = "Some(None)")]
        pub item: Option<Option<N>>,
        #[builder(setter(name = "assign3", each(name = "each3")))]
        pub std: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<Option<Cp>>,
        pub self_: Option<::std::option::Option<N>>,
        pub item: Option<Option<Option<N>>>,
        pub std: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            self_: Default::default(),
            item: Default::default(),
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Some(Cp(7)) },
            self_: match m.self_.clone() { Some(v) => v, None => Default::default() },
            item: match m.item.clone() { Some(v) => v, None => Some(None) },
            std: match m.std.clone() { Some(v) => v, None => dflt.std.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.self_ == want.self_, 101);
                check(got.item == want.item, 102);
                check(got.std == want.std, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.self_ == m.self_, 201);
        check(b.item == m.item, 202);
        check(b.std == m.std, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.with_type(x.clone()); m.r#type = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.with_type(x.clone()); m.r#type = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_with_type(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: N = N(any_u32("v")); b = b.with_self_(x.clone()); m.self_ = Some(Some(x)); }
                4 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.with_self_(x.clone()); m.self_ = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_self_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                6 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.assign3(x.clone()); m.std = Some(x); }
                7 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.assign3(x.clone()); m.std = Some(xm); check(convs() == c0 + 0, 80); }
                8 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_assign3(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                9 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each3(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.std, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(into = false, strip_option = false), try_setter, default, custom_constructor, build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(name = "assign0", into), try_setter, field(private), private)]
        pub f: ::std::option::Option<N>,
        #[builder(setter(prefix = "put"), try_setter)]
        pub build_with: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<::std::option::Option<N>>,
        pub build_with: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            build_with: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got.build_with == want.build_with, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b.build_with == m.build_with, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.assign0(x.clone()); m.f = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.assign0(x.clone()); m.f = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_assign0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.put_build_with(x.clone()); m.build_with = Some(x); }
                4 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_put_build_with(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), default = "S { converted: None, _under: Some(N(8)), f: 7 }", build_fn(name = "finish"), derive(Debug))]
    pub struct S {
        #[builder(pattern = "immutable", setter(into, name = "assign0"))]
        pub converted: ::std::option::Option<N>,
        #[builder(pattern = "immutable", setter(prefix = "put", strip_option), try_setter, default)]
        pub _under: core::option::Option<N>,
        #[builder(pattern = "owned", setter(into, name = "assign2"), field(ty = "Option<Cp>", build = "std::mem::size_of_val(&self.f) as u32", vis = "pub(super)"))]
        pub f: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<::std::option::Option<N>>,
        pub _under: Option<core::option::Option<N>>,
        pub f: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            _under: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { converted: None, _under: Some(N(8)), f: 7 };
        let _ = &dflt;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            _under: match m._under.clone() { Some(v) => v, None => Default::default() },
            f: std::mem::size_of_val(&m.f) as u32,
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got._under == want._under, 101);
                check(got.f == want.f, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b._under == m._under, 201);
        check(b.f == m.f, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.converted = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put__under(x.clone()); slots(&b, &m); b = nb; m._under = Some(Some(x)); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.put__under(x.clone()); slots(&b, &m); b = nb; m._under = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put__under(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.assign2(x.clone()); m.f = x; }
                6 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.assign2(x.clone()); m.f = xm; check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(into, strip_option = false), try_setter, name = "Maker", build_fn(private), no_std)]
    pub struct S {
        #[builder(pattern = "mutable", setter(into), field(public))]
        pub std: Option<Cp>,
        #[builder(setter(name = "give1", strip_option))]
        pub default_: core::option::Option<N>,
        #[builder(setter(into, prefix = "put", name = "give2"))]
        pub f: Option<Option<N>>,
        #[builder(pattern = "mutable", setter(prefix = "put", skip))]
        pub a: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<Option<Cp>>,
        pub default_: Option<core::option::Option<N>>,
        pub f: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            default_: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => { return Err("std") } },
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            f: match m.f.clone() { Some(v) => v, None => { return Err("f") } },
            a: Default::default(),
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.default_ == want.default_, 101);
                check(got.f == want.f, 102);
                check(got.a == want.a, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.default_ == m.default_, 201);
        check(b.f == m.f, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut Maker = b.std(x.clone()); m.std = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let _: &mut Maker = b.std(x.clone()); m.std = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_std(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: N = N(any_u32("v")); let _: &mut Maker = b.give1(x.clone()); m.default_ = Some(Some(x)); }
                4 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.give1(x.clone()); m.default_ = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_give1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                6 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut Maker = b.give2(x.clone()); m.f = Some(x); }
                7 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let _: &mut Maker = b.give2(x.clone()); m.f = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter, default = "S { std: Some(None), item: Cp(7), b: Some(Cp(7)) }", custom_constructor, build_fn(private), no_std, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub std: Option<Option<N>>,
        #[builder(pattern = "immutable", setter(into = false), field(build = "self.item.unwrap_or(Cp(5))"), public)]
        pub item: Cp,
        #[builder(setter(into), default = "Some(Cp(7))")]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<Option<Option<N>>>,
        pub item: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            item: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { std: Some(None), item: Cp(7), b: Some(Cp(7)) };
        let _ = &dflt;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => dflt.std.clone() },
            item: m.item.unwrap_or(Cp(5)),
            b: match m.b.clone() { Some(v) => v, None => Some(Cp(7)) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.item == want.item, 101);
                check(got.b == want.b, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.item == m.item, 201);
        check(b.b == m.b, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.std(x.clone()); m.std = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.std(x.clone()); m.std = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; m.item = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_item(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                4 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.b(x.clone()); m.b = Some(x); }
                5 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.b(x.clone()); m.b = Some(xm); check(convs() == c0 + 0, 80); }
                6 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default, build_fn(name = "finish"), no_std)]
    pub struct S {
        #[builder(setter(into), try_setter, default)]
        pub r#type: String,
        #[builder(setter(into = false, strip_option = false, prefix = "put"), try_setter)]
        pub build_with: Option<N>,
        #[builder(pattern = "owned", setter(name = "give2"))]
        pub x1: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<String>,
        pub build_with: Option<Option<N>>,
        pub x1: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            build_with: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
            x1: match m.x1.clone() { Some(v) => v, None => dflt.x1.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.build_with == want.build_with, 101);
                check(got.x1 == want.x1, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.build_with == m.build_with, 201);
        check(b.x1 == m.x1, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.r#type(x.clone()); m.r#type = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.r#type(x.clone()); m.r#type = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.put_build_with(x.clone()); m.build_with = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_put_build_with(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                4 => { let x: u32 = any_u32("v"); b = b.give2(x.clone()); m.x1 = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default, custom_constructor, field(public), derive(Debug))]
    pub struct S {
        #[builder(setter(prefix = "put", into), field(public))]
        pub build_with: Option<N>,
        #[builder(setter(into = false), try_setter, field(build = "self._under.unwrap_or(Cp(5))", public))]
        pub _under: Cp,
        #[builder(setter(skip), default)]
        pub build_: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<Option<N>>,
        pub _under: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
            _under: m._under.unwrap_or(Cp(5)),
            build_: Default::default(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got._under == want._under, 101);
                check(got.build_ == want.build_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b._under == m._under, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.put_build_with(x.clone()); m.build_with = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.put_build_with(x.clone()); m.build_with = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b._under(x.clone()); m._under = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try__under(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with", skip), try_setter, default = "S { value: Some(Cp(7)), f: Cp(7) }", no_std)]
    pub struct S {
        #[builder(setter(strip_option = false, into), default)]
        pub value: Option<Cp>,
        #[builder(pattern = "mutable", setter(into), public)]
        pub f: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub value: Option<Option<Cp>>,
        pub f: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            value: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { value: Some(Cp(7)), f: Cp(7) };
        let _ = &dflt;
        Ok(S {
            value: match m.value.clone() { Some(v) => v, None => Default::default() },
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.value == want.value, 100);
                check(got.f == want.f, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.value == m.value, 200);
        check(b.f == m.f, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.with_value(x.clone()); slots(&b, &m); b = nb; m.value = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let nb: SBuilder = b.with_value(x.clone()); slots(&b, &m); b = nb; m.value = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_with_value(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.value = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.with_f(x.clone()); m.f = Some(x); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.with_f(x.clone()); m.f = Some(xm); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_f(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { converted: None, z9_: (7, 8), default_: Some(N(7)) }", create_empty = "blank", custom_constructor, build_fn(name = "finish"), private, derive(Debug))]
    pub struct S {
        #[builder(setter(into))]
        pub converted: ::std::option::Option<N>,
        #[builder(pattern = "owned", setter(custom), field(vis = "pub(super)"))]
        pub z9_: (u8, u16),
        #[builder(pattern = "immutable", setter(strip_option), default = "Some(N(7))", field(vis = "pub(super)"))]
        pub default_: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<::std::option::Option<N>>,
        pub z9_: Option<(u8, u16)>,
        pub default_: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            z9_: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { converted: None, z9_: (7, 8), default_: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
            default_: match m.default_.clone() { Some(v) => v, None => Some(N(7)) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.z9_ == want.z9_, 101);
                check(got.default_ == want.default_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.z9_ == m.z9_, 201);
        check(b.default_ == m.default_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.default_(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(skip), custom_constructor, build_fn(name = "finish"))]
    pub struct S {
        #[builder(pattern = "mutable", setter(into), try_setter)]
        pub __x: String,
        #[builder(setter(into), private)]
        pub wh: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<String>,
        pub wh: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => { return Err("__x") } },
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.wh == want.wh, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.wh == m.wh, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.__x(x.clone()); m.__x = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut SBuilder = b.__x(x.clone()); m.__x = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.wh(x.clone()); m.wh = Some(x); }
                3 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let _: &mut SBuilder = b.wh(x.clone()); m.wh = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into), default = "S { b: String::from(\"lit\"), item: 7, value: Some(N(7)), new: 7 }", build_fn(name = "finish"), field(public))]
    pub struct S {
        #[builder(pattern = "mutable", setter(strip_option, into), default)]
        pub b: String,
        #[builder(try_setter, default)]
        pub item: u32,
        #[builder(try_setter, default, field(vis = "pub(super)"))]
        pub value: Option<N>,
        #[builder(pattern = "immutable", setter(strip_option, name = "give3"), try_setter, field(ty = "Option<Option<Cp>>", build = "std::mem::size_of_val(&self.new) as u32"))]
        pub new: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<String>,
        pub item: Option<u32>,
        pub value: Option<Option<N>>,
        pub new: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            item: Default::default(),
            value: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { b: String::from("lit"), item: 7, value: Some(N(7)), new: 7 };
        let _ = &dflt;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            item: match m.item.clone() { Some(v) => v, None => Default::default() },
            value: match m.value.clone() { Some(v) => v, None => Default::default() },
            new: std::mem::size_of_val(&m.new) as u32,
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.item == want.item, 101);
                check(got.value == want.value, 102);
                check(got.new == want.new, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.item == m.item, 201);
        check(b.value == m.value, 202);
        check(b.new == m.new, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 12) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; m.item = Some(x); }
                3 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; m.item = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_item(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.value(x.clone()); slots(&b, &m); b = nb; m.value = Some(x); }
                6 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.value(x.clone()); slots(&b, &m); b = nb; m.value = Some(xm); check(convs() == c0 + 0, 80); }
                7 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_value(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.value = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                8 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.give3(x.clone()); slots(&b, &m); b = nb; m.new = Some(x); }
                9 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let nb: SBuilder = b.give3(x.clone()); slots(&b, &m); b = nb; m.new = Some(xm); check(convs() == c0 + 0, 80); }
                10 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_give3(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", into = false), try_setter)]
    pub struct S {
        #[builder(setter(into), try_setter, public)]
        pub err: ::std::option::Option<N>,
        #[builder(setter(prefix = "put", into))]
        pub default_: String,
        #[builder(pattern = "owned", setter(strip_option), default, field(private))]
        pub _under: Option<Option<N>>,
        #[builder(setter(each = "each3"), public)]
        pub result: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<::std::option::Option<N>>,
        pub default_: Option<String>,
        pub _under: Option<Option<Option<N>>>,
        pub result: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            default_: Default::default(),
            _under: Default::default(),
            result: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => { return Err("err") } },
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            _under: match m._under.clone() { Some(v) => v, None => Default::default() },
            result: match m.result.clone() { Some(v) => v, None => { return Err("result") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.default_ == want.default_, 101);
                check(got._under == want._under, 102);
                check(got.result == want.result, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.default_ == m.default_, 201);
        check(b._under == m._under, 202);
        check(b.result == m.result, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.result = x.clone(); m.result = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.with_err(x.clone()); m.err = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); b = b.with_err(x.clone()); m.err = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_with_err(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.put_default_(x.clone()); m.default_ = Some(x); }
                4 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.put_default_(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.with__under(x.clone()); m._under = Some(Some(x)); }
                6 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_with__under(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                7 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.with_result(x.clone()); m.result = Some(x); }
                8 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_with_result(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                9 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each3(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.result, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "set", strip_option), default, name = "Maker", build_fn(name = "finish", private))]
    pub struct S {
        #[builder(setter(strip_option = false, into), try_setter)]
        pub std: N,
        #[builder(pattern = "mutable", setter, try_setter, public)]
        pub core: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<N>,
        pub core: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            core: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => dflt.std.clone() },
            core: match m.core.clone() { Some(v) => v, None => dflt.core.clone() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.core == want.core, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.core == m.core, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.set_std(x.clone()); m.std = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.set_std(x.clone()); m.std = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_std(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: N = N(any_u32("v")); let _: &mut Maker = b.set_core(x.clone()); m.core = Some(Some(x)); }
                4 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_core(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.core = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", custom_constructor, build_fn(name = "finish", private))]
    pub struct S {
        #[builder(setter(into), field(public))]
        pub result: Option<Cp>,
        #[builder(pattern = "owned", setter(into, strip_option = false, prefix = "put"), try_setter, default)]
        pub value: String,
        #[builder(pattern = "owned", setter, try_setter, default = "vec![N(7)]")]
        pub f: Vec<N>,
        #[builder(pattern = "immutable", setter(prefix = "put"))]
        pub new: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub result: Option<Option<Cp>>,
        pub value: Option<String>,
        pub f: Option<Vec<N>>,
        pub new: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            result: Default::default(),
            value: Default::default(),
            f: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            result: match m.result.clone() { Some(v) => v, None => { return Err("result") } },
            value: match m.value.clone() { Some(v) => v, None => Default::default() },
            f: match m.f.clone() { Some(v) => v, None => vec![N(7)] },
            new: match m.new.clone() { Some(v) => v, None => { return Err("new") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.result == want.result, 100);
                check(got.value == want.value, 101);
                check(got.f == want.f, 102);
                check(got.new == want.new, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.result == m.result, 200);
        check(b.value == m.value, 201);
        check(b.f == m.f, 202);
        check(b.new == m.new, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.result(x.clone()); m.result = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.result(x.clone()); m.result = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.put_value(x.clone()); m.value = Some(x); }
                3 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.put_value(x.clone()); m.value = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.f(x.clone()); m.f = Some(x); }
                5 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_f(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                6 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.put_new(x.clone()); slots(&b, &m); b = nb; m.new = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "with", into), default, custom_constructor, build_fn(name = "finish", error(validation_error = false)), derive(Debug))]
    pub struct S {
        #[builder(setter(name = "give0", into), try_setter)]
        pub wh: Option<N>,
        #[builder(setter(into = false), try_setter)]
        pub item: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<Option<N>>,
        pub item: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            item: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            wh: match m.wh.clone() { Some(v) => v, None => dflt.wh.clone() },
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.wh == want.wh, 100);
                check(got.item == want.item, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 200);
        check(b.item == m.item, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.give0(x.clone()); m.wh = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.give0(x.clone()); m.wh = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_give0(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.with_item(x.clone()); m.item = Some(x); }
                4 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_with_item(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "set", skip), try_setter, build_fn(name = "finish"))]
    pub struct S {
        #[builder(pattern = "mutable", setter(prefix = "put", into), default)]
        pub err: Cp,
        #[builder(setter(prefix = "put", each(name = "each1", into)), field(public))]
        pub wh: Vec<N>,
        #[builder(setter(strip_option), try_setter, default, field(vis = "pub(super)"))]
        pub item: Cp,
        #[builder(setter(strip_option), default)]
        pub self_: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<Cp>,
        pub wh: Option<Vec<N>>,
        pub item: Option<Cp>,
        pub self_: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            wh: Default::default(),
            item: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
            item: match m.item.clone() { Some(v) => v, None => Default::default() },
            self_: match m.self_.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.wh == want.wh, 101);
                check(got.item == want.item, 102);
                check(got.self_ == want.self_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.wh == m.wh, 201);
        check(b.item == m.item, 202);
        check(b.self_ == m.self_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.put_err(x.clone()); m.err = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.put_err(x.clone()); m.err = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_err(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.put_wh(x.clone()); slots(&b, &m); b = nb; m.wh = Some(x); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_put_wh(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.each1(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.wh, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                6 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.set_item(x.clone()); slots(&b, &m); b = nb; m.item = Some(x); }
                7 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_set_item(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                8 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.set_self_(x.clone()); slots(&b, &m); b = nb; m.self_ = Some(Some(x)); }
                9 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_set_self_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "set", strip_option), try_setter, name = "Maker", no_std)]
    pub struct S {
        #[builder(setter(into))]
        pub Upper: Cp,
        #[builder(try_setter, field(ty = "Cp", build = "self.build_.0"))]
        pub build_: u32,
        #[builder(setter(into), default, field(public))]
        pub r#type: (u8, u16),
        #[builder(setter(into, strip_option = false), try_setter, default = "Cp(7)")]
        pub new: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub Upper: Option<Cp>,
        pub build_: Cp,
        pub r#type: Option<(u8, u16)>,
        pub new: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            Upper: Default::default(),
            build_: Default::default(),
            r#type: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            Upper: match m.Upper.clone() { Some(v) => v, None => { return Err("Upper") } },
            build_: m.build_.0,
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            new: match m.new.clone() { Some(v) => v, None => Cp(7) },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.Upper == want.Upper, 100);
                check(got.build_ == want.build_, 101);
                check(got.r#type == want.r#type, 102);
                check(got.new == want.new, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.Upper == m.Upper, 200);
        check(b.build_ == m.build_, 201);
        check(b.r#type == m.r#type, 202);
        check(b.new == m.new, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Cp = Cp(any_u32("v"));
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 10) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: Maker = b.set_Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: Maker = b.set_Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_set_Upper(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: Maker = b.set_build_(x.clone()); slots(&b, &m); b = nb; m.build_ = x; }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_set_build_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_ = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: Maker = b.set_type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(x); }
                6 => { let x: Cp = Cp(any_u32("v")); let nb: Maker = b.set_new(x.clone()); slots(&b, &m); b = nb; m.new = Some(x); }
                7 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: Maker = b.set_new(x.clone()); slots(&b, &m); b = nb; m.new = Some(xm); check(convs() == c0 + 1, 80); }
                8 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_set_new(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(strip_option), create_empty = "blank", no_std, field(public))]
    pub struct S {
        #[builder(setter(strip_option = false, into), try_setter)]
        pub wh: N,
        #[builder(pattern = "mutable", field(vis = "pub(super)"), vis = "pub(crate)")]
        pub z9_: ::std::option::Option<N>,
        #[builder(setter(name = "assign2", into), try_setter)]
        pub try_it: String,
        #[builder(setter(into, each(name = "each3", into), strip_option), try_setter, default = "None", private)]
        pub f: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<N>,
        pub z9_: Option<::std::option::Option<N>>,
        pub try_it: Option<String>,
        pub f: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            z9_: Default::default(),
            try_it: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            f: match m.f.clone() { Some(v) => v, None => None },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.wh == want.wh, 100);
                check(got.z9_ == want.z9_, 101);
                check(got.try_it == want.try_it, 102);
                check(got.f == want.f, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 200);
        check(b.z9_ == m.z9_, 201);
        check(b.try_it == m.try_it, 202);
        check(b.f == m.f, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: N = N(any_u32("v")); b = b.wh(x.clone()); m.wh = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.wh(x.clone()); m.wh = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_wh(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.z9_(x.clone()); m.z9_ = Some(Some(x)); }
                4 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.assign2(x.clone()); m.try_it = Some(x); }
                5 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.assign2(x.clone()); m.try_it = Some(xm); check(convs() == c0 + 0, 80); }
                6 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.f(x.clone()); m.f = Some(Some(x)); }
                7 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.each3(x.clone()); { let c: &mut Coll = (m.f.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter, default = "S { __x: String::from(\"lit\"), build_: (7, 8), a: Cp(7) }", name = "Maker", create_empty = "blank", custom_constructor, derive(Debug))]
    pub struct S {
        #[builder(pattern = "owned", setter(strip_option, name = "give0", into))]
        pub __x: String,
        #[builder(setter(custom), default)]
        pub build_: (u8, u16),
        #[builder(setter(strip_option), field(build = "self.a.unwrap_or(Cp(5))"))]
        pub a: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<String>,
        pub build_: Option<(u8, u16)>,
        pub a: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            build_: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { __x: String::from("lit"), build_: (7, 8), a: Cp(7) };
        let _ = &dflt;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            build_: match m.build_.clone() { Some(v) => v, None => Default::default() },
            a: m.a.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.build_ == want.build_, 101);
                check(got.a == want.a, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.build_ == m.build_, 201);
        check(b.a == m.a, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::blank();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.give0(x.clone()); m.__x = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.give0(x.clone()); m.__x = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with", skip), custom_constructor, build_fn(name = "finish", error(validation_error = false)), no_std)]
    pub struct S {
        #[builder(pattern = "owned", setter(into), try_setter, field(private))]
        pub Upper: u32,
        #[builder(setter, default)]
        pub err: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub Upper: Option<u32>,
        pub err: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            Upper: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            Upper: match m.Upper.clone() { Some(v) => v, None => { return Err("Upper") } },
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.Upper == want.Upper, 100);
                check(got.err == want.err, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.Upper == m.Upper, 200);
        check(b.err == m.err, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); b = b.with_Upper(x.clone()); m.Upper = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.with_Upper(x.clone()); m.Upper = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_with_Upper(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.with_err(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s20 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(strip_option, skip), try_setter, default, custom_constructor)]
    pub struct S {
        #[builder(setter(strip_option, name = "assign0", into))]
        pub new: Vec<N>,
        #[builder(pattern = "immutable", setter(name = "assign1"), default)]
        pub err: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<Vec<N>>,
        pub err: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.err == want.err, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b.err == m.err, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.assign0(x.clone()); m.new = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.assign0(x.clone()); m.new = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_assign0(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.assign1(x.clone()); slots(&b, &m); b = nb; m.err = Some(Some(x)); }
                4 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_assign1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s21 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", strip_option), custom_constructor, build_fn(name = "finish", vis = "pub(crate)"), derive(Debug))]
    pub struct S {
        #[builder(setter(into), default)]
        pub result: Vec<N>,
        #[builder(pattern = "immutable", setter(into = false), try_setter)]
        pub err: (u8, u16),
        #[builder(default, public)]
        pub r#type: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub result: Option<Vec<N>>,
        pub err: Option<(u8, u16)>,
        pub r#type: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            result: Default::default(),
            err: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            result: match m.result.clone() { Some(v) => v, None => Default::default() },
            err: match m.err.clone() { Some(v) => v, None => { return Err("err") } },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.result == want.result, 100);
                check(got.err == want.err, 101);
                check(got.r#type == want.r#type, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.result == m.result, 200);
        check(b.err == m.err, 201);
        check(b.r#type == m.r#type, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.with_result(x.clone()); m.result = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.with_result(x.clone()); m.result = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: SBuilder = b.with_err(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                3 => { let x: N = N(any_u32("v")); b = b.with_type(x.clone()); m.r#type = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s22 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(into = false, strip_option), try_setter, default, custom_constructor)]
    pub struct S {
        #[builder(setter(strip_option, prefix = "put", into))]
        pub converted: Vec<N>,
        #[builder(pattern = "mutable", setter(prefix = "put", strip_option))]
        pub new: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<Vec<N>>,
        pub new: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.new == want.new, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.new == m.new, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.put_converted(x.clone()); m.converted = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.put_converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_put_converted(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.put_new(x.clone()); m.new = Some(Some(x)); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_new(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s23 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", custom_constructor, build_fn(error(validation_error = false)), field(public))]
    pub struct S {
        #[builder(pattern = "immutable", setter(strip_option, into), try_setter)]
        pub _under: String,
        #[builder(try_setter, default)]
        pub Upper: Vec<N>,
        #[builder(setter(strip_option), default, public)]
        pub converted: Option<Vec<N>>,
        #[builder(pattern = "owned", setter(strip_option), default)]
        pub std: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<String>,
        pub Upper: Option<Vec<N>>,
        pub converted: Option<Option<Vec<N>>>,
        pub std: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            Upper: Default::default(),
            converted: Default::default(),
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => { return Err("_under") } },
            Upper: match m.Upper.clone() { Some(v) => v, None => Default::default() },
            converted: match m.converted.clone() { Some(v) => v, None => Default::default() },
            std: match m.std.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.Upper == want.Upper, 101);
                check(got.converted == want.converted, 102);
                check(got.std == want.std, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.Upper == m.Upper, 201);
        check(b.converted == m.converted, 202);
        check(b.std == m.std, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b._under(x.clone()); slots(&b, &m); b = nb; m._under = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let nb: SBuilder = b._under(x.clone()); slots(&b, &m); b = nb; m._under = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.Upper(x.clone()); m.Upper = Some(x); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_Upper(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                4 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.converted(x.clone()); m.converted = Some(Some(x)); }
                5 => { let x: N = N(any_u32("v")); b = b.std(x.clone()); m.std = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s24 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(strip_option = false), try_setter, create_empty = "blank", custom_constructor, build_fn(name = "finish"), no_std)]
    pub struct S {
        #[builder(setter(strip_option, name = "give0", into), try_setter, field(public))]
        pub item: Vec<N>,
        #[builder(pattern = "immutable", setter(into))]
        pub build_with: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<Vec<N>>,
        pub build_with: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            build_with: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            build_with: match m.build_with.clone() { Some(v) => v, None => { return Err("build_with") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.build_with == want.build_with, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.build_with == m.build_with, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.give0(x.clone()); m.item = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.give0(x.clone()); m.item = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_give0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(x); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(xm); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_build_with(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s25 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default, custom_constructor)]
    pub struct S {
        #[builder(setter(into), try_setter, private)]
        pub value: Option<Option<N>>,
        #[builder(pattern = "immutable", setter(name = "assign1"))]
        pub new: Cp,
        #[builder(setter(into), try_setter)]
        pub self_: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub value: Option<Option<Option<N>>>,
        pub new: Option<Cp>,
        pub self_: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            value: Default::default(),
            new: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            value: match m.value.clone() { Some(v) => v, None => dflt.value.clone() },
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.value == want.value, 100);
                check(got.new == want.new, 101);
                check(got.self_ == want.self_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.value == m.value, 200);
        check(b.new == m.new, 201);
        check(b.self_ == m.self_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.value(x.clone()); m.value = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.value(x.clone()); m.value = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.assign1(x.clone()); slots(&b, &m); b = nb; m.new = Some(x); }
                3 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.self_(x.clone()); m.self_ = Some(x); }
                4 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.self_(x.clone()); m.self_ = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s26 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(into = false), default, create_empty = "blank", custom_constructor, build_fn(name = "finish"), private, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(into), try_setter, default = "7")]
        pub result: u32,
        #[builder(pattern = "owned", setter(into, each(name = "each1", into)), try_setter)]
        pub Upper: Coll,
        #[builder(setter(into, each = "each2", strip_option), default)]
        pub self_: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub result: Option<u32>,
        pub Upper: Option<Coll>,
        pub self_: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            result: Default::default(),
            Upper: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            result: match m.result.clone() { Some(v) => v, None => 7 },
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
            self_: match m.self_.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.result == want.result, 100);
                check(got.Upper == want.Upper, 101);
                check(got.self_ == want.self_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.result == m.result, 200);
        check(b.Upper == m.Upper, 201);
        check(b.self_ == m.self_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: u32 = any_u32("v"); b = b.result(x.clone()); m.result = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.result(x.clone()); m.result = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_result(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.Upper(x.clone()); m.Upper = Some(x); }
                4 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.each1(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.Upper, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                5 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.self_(x.clone()); m.self_ = Some(Some(x)); }
                6 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.self_(x.clone()); m.self_ = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                7 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Vec<N> = (m.self_.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s27 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(prefix = "set", strip_option = false), default = "S { f: Some(None), _under: String::from(\"lit\") }", create_empty = "blank")]
    pub struct S {
        #[builder(setter(into))]
        pub f: Option<Option<N>>,
        #[builder(pattern = "mutable", setter(into, name = "assign1"), default = "String::from(\"lit\")")]
        pub _under: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<Option<Option<N>>>,
        pub _under: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { f: Some(None), _under: String::from("lit") };
        let _ = &dflt;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
            _under: match m._under.clone() { Some(v) => v, None => String::from("lit") },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got._under == want._under, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b._under == m._under, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut SBuilder = b.set_f(x.clone()); m.f = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.set_f(x.clone()); m.f = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.assign1(x.clone()); m._under = Some(x); }
                3 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut SBuilder = b.assign1(x.clone()); m._under = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s28 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(try_setter, default, name = "Maker", build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(into), default = "(7, 8)")]
        pub core: (u8, u16),
        #[builder(setter(into = false, custom), field(private))]
        pub item: Vec<N>,
        #[builder(setter(name = "give2"), default)]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<(u8, u16)>,
        pub item: Option<Vec<N>>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            item: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => (7, 8) },
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.item == want.item, 101);
                check(got.b == want.b, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.item == m.item, 201);
        check(b.b == m.b, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut Maker = b.core(x.clone()); m.core = Some(x); }
                1 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut Maker = b.give2(x.clone()); m.b = Some(x); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_give2(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s29 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), build_fn(private), no_std)]
    pub struct S {
        #[builder(pattern = "immutable", setter(into), field(vis = "pub(super)"), private)]
        pub default_: N,
        #[builder(setter(into), try_setter, vis = "pub(crate)")]
        pub new: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<N>,
        pub new: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            new: match m.new.clone() { Some(v) => v, None => { return Err("new") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.new == want.new, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.new == m.new, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.default_(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.default_(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.new(x.clone()); m.new = Some(x); }
                3 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.new(x.clone()); m.new = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s30 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into = false, strip_option), try_setter, default = "S { converted: 7, f: 7, self_: Some(N(7)) }", build_fn(name = "finish"), private)]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub converted: u32,
        #[builder(setter(strip_option), try_setter, default = "7")]
        pub f: u32,
        #[builder(setter(custom))]
        pub self_: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<u32>,
        pub f: Option<u32>,
        pub self_: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            f: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { converted: 7, f: 7, self_: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            f: match m.f.clone() { Some(v) => v, None => 7 },
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.f == want.f, 101);
                check(got.self_ == want.self_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.f == m.f, 201);
        check(b.self_ == m.self_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); b = b.converted(x.clone()); m.converted = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_converted(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: u32 = any_u32("v"); b = b.f(x.clone()); m.f = Some(x); }
                4 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_f(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s31 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter, build_fn(error(validation_error = false), vis = "pub(crate)"), field(public))]
    pub struct S {
        #[builder(setter(into, strip_option), field(vis = "pub(super)"))]
        pub std: N,
        #[builder(pattern = "owned", setter(each(name = "each1", into), strip_option))]
        pub build_: Option<Coll>,
        #[builder(field(build = "self.result.unwrap_or(Cp(5))"))]
        pub result: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<N>,
        pub build_: Option<Option<Coll>>,
        pub result: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            build_: Default::default(),
            result: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => { return Err("std") } },
            build_: match m.build_.clone() { Some(v) => v, None => { return Err("build_") } },
            result: m.result.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.build_ == want.build_, 101);
                check(got.result == want.result, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.build_ == m.build_, 201);
        check(b.result == m.result, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.result = x.clone(); m.result = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.std(x.clone()); m.std = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.std(x.clone()); m.std = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_std(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.build_(x.clone()); m.build_ = Some(Some(x)); }
                4 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.each1(x.clone()); { let c: &mut Coll = (m.build_.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                5 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.result(x.clone()); m.result = Some(x); }
                6 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_result(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s32 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(prefix = "set", into, strip_option = false), default, custom_constructor, build_fn(public), no_std, field(public))]
    pub struct S {
        #[builder(pattern = "mutable", setter(into), field(public))]
        pub std: ::std::option::Option<N>,
        #[builder(setter(prefix = "put", name = "assign1", each(name = "each1", into)))]
        pub default_: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<::std::option::Option<N>>,
        pub default_: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => dflt.std.clone() },
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.default_ == want.default_, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.default_ == m.default_, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.set_std(x.clone()); m.std = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.set_std(x.clone()); m.std = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.assign1(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(x); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.each1(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.default_, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s33 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), try_setter, custom_constructor)]
    pub struct S {
        #[builder(setter(into), default = "N(7)", field(public))]
        pub r#type: N,
        #[builder(default)]
        pub f: Vec<N>,
        #[builder(setter(strip_option))]
        pub z9_: Option<Option<N>>,
        #[builder(setter(into = false), try_setter, default)]
        pub r#fn: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<N>,
        pub f: Option<Vec<N>>,
        pub z9_: Option<Option<Option<N>>>,
        pub r#fn: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            f: Default::default(),
            z9_: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => N(7) },
            f: match m.f.clone() { Some(v) => v, None => Default::default() },
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.f == want.f, 101);
                check(got.z9_ == want.z9_, 102);
                check(got.r#fn == want.r#fn, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.f == m.f, 201);
        check(b.z9_ == m.z9_, 202);
        check(b.r#fn == m.r#fn, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 12) {
                0 => { let x: N = N(any_u32("v")); b = b.r#type(x.clone()); m.r#type = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.r#type(x.clone()); m.r#type = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_type(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.f(x.clone()); m.f = Some(x); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.f(x.clone()); m.f = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_f(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                6 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.z9_(x.clone()); m.z9_ = Some(Some(x)); }
                7 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.z9_(x.clone()); m.z9_ = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                8 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_z9_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                9 => { let x: N = N(any_u32("v")); b = b.r#fn(x.clone()); m.r#fn = Some(x); }
                10 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_fn(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s34 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set"))]
    pub struct S {
        #[builder(pattern = "immutable", setter(into), default = "Cp(7)")]
        pub _under: Cp,
        #[builder(default)]
        pub f: Vec<N>,
        #[builder(pattern = "owned", default = "vec![N(7)]", public)]
        pub self_: Vec<N>,
        #[builder(setter(into = false), try_setter)]
        pub std: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<Cp>,
        pub f: Option<Vec<N>>,
        pub self_: Option<Vec<N>>,
        pub std: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            f: Default::default(),
            self_: Default::default(),
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => Cp(7) },
            f: match m.f.clone() { Some(v) => v, None => Default::default() },
            self_: match m.self_.clone() { Some(v) => v, None => vec![N(7)] },
            std: match m.std.clone() { Some(v) => v, None => { return Err("std") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.f == want.f, 101);
                check(got.self_ == want.self_, 102);
                check(got.std == want.std, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.f == m.f, 201);
        check(b.self_ == m.self_, 202);
        check(b.std == m.std, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.set__under(x.clone()); slots(&b, &m); b = nb; m._under = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.set__under(x.clone()); slots(&b, &m); b = nb; m._under = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.set_f(x.clone()); m.f = Some(x); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.set_self_(x.clone()); m.self_ = Some(x); }
                4 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.set_std(x.clone()); m.std = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s35 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(prefix = "with", strip_option = false, skip), try_setter, default, private, field(public))]
    pub struct S {
        #[builder(setter(into))]
        pub Upper: u32,
        #[builder(default)]
        pub wh: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub Upper: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
            wh: Default::default(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.Upper == want.Upper, 100);
                check(got.wh == want.wh, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.Upper == m.Upper, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.with_Upper(x.clone()); m.Upper = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut SBuilder = b.with_Upper(x.clone()); m.Upper = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_with_Upper(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s36 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(into = false), default, create_empty = "blank", field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub err: String,
        #[builder(setter(strip_option, prefix = "put"), field(ty = "Cp"))]
        pub build_: Cp,
        #[builder(pattern = "mutable", default, private)]
        pub r#fn: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<String>,
        pub build_: Cp,
        pub r#fn: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            build_: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => dflt.err.clone() },
            build_: m.build_.clone(),
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.build_ == want.build_, 101);
                check(got.r#fn == want.r#fn, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.build_ == m.build_, 201);
        check(b.r#fn == m.r#fn, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Cp = Cp(any_u32("v"));
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.err(x.clone()); m.err = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.err(x.clone()); m.err = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.put_build_(x.clone()); m.build_ = x; }
                3 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.r#fn(x.clone()); m.r#fn = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s37 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "set"), default = "S { err: Some(None), value: Some(vec![N(7)]) }", create_empty = "blank", build_fn(error(validation_error = false), private), no_std, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "immutable", setter(into))]
        pub err: Option<Option<N>>,
        #[builder(pattern = "mutable", setter(each(name = "each1", into), strip_option))]
        pub value: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<Option<Option<N>>>,
        pub value: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { err: Some(None), value: Some(vec![N(7)]) };
        let _ = &dflt;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => dflt.err.clone() },
            value: match m.value.clone() { Some(v) => v, None => dflt.value.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.value == want.value, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.value == m.value, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let nb: SBuilder = b.set_err(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.set_err(x.clone()); slots(&b, &m); b = nb; m.err = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.set_value(x.clone()); m.value = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Vec<N> = (m.value.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s38 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { try_it: vec![N(7)], wh: String::from(\"lit\"), new: String::from(\"lit\") }", build_fn(error(validation_error = false)), no_std)]
    pub struct S {
        #[builder(pattern = "immutable", setter(into))]
        pub try_it: Vec<N>,
        #[builder(pattern = "immutable", setter(custom))]
        pub wh: String,
        #[builder(setter(skip = false), try_setter, public)]
        pub new: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<Vec<N>>,
        pub wh: Option<String>,
        pub new: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            wh: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { try_it: vec![N(7)], wh: String::from("lit"), new: String::from("lit") };
        let _ = &dflt;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
            wh: match m.wh.clone() { Some(v) => v, None => dflt.wh.clone() },
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.wh == want.wh, 101);
                check(got.new == want.new, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.wh == m.wh, 201);
        check(b.new == m.new, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.new(x.clone()); m.new = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s39 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", try_setter, default, name = "Maker", create_empty = "blank", build_fn(name = "finish"))]
    pub struct S {
        #[builder(pattern = "mutable", setter(into), default)]
        pub _under: Option<Option<N>>,
        #[builder(setter(strip_option), try_setter, default = "Some(None)")]
        pub build_with: Option<Option<N>>,
        #[builder(setter(strip_option), default, private)]
        pub Upper: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<Option<Option<N>>>,
        pub build_with: Option<Option<Option<N>>>,
        pub Upper: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            build_with: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => Default::default() },
            build_with: match m.build_with.clone() { Some(v) => v, None => Some(None) },
            Upper: match m.Upper.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.build_with == want.build_with, 101);
                check(got.Upper == want.Upper, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.build_with == m.build_with, 201);
        check(b.Upper == m.Upper, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut Maker = b._under(x.clone()); m._under = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let _: &mut Maker = b._under(x.clone()); m._under = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut Maker = b.build_with(x.clone()); m.build_with = Some(Some(x)); }
                3 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_build_with(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut Maker = b.Upper(x.clone()); m.Upper = Some(Some(x)); }
                5 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_Upper(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s40 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(strip_option = false), default, custom_constructor, derive(Debug))]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub core: u32,
        #[builder(pattern = "owned", setter(strip_option), try_setter, default = "Cp(7)")]
        pub default_: Cp,
        #[builder(pattern = "mutable", setter(custom))]
        pub x1: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<u32>,
        pub default_: Option<Cp>,
        pub x1: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            default_: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => dflt.core.clone() },
            default_: match m.default_.clone() { Some(v) => v, None => Cp(7) },
            x1: match m.x1.clone() { Some(v) => v, None => dflt.x1.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.default_ == want.default_, 101);
                check(got.x1 == want.x1, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.default_ == m.default_, 201);
        check(b.x1 == m.x1, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); b = b.core(x.clone()); m.core = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.core(x.clone()); m.core = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_core(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.core = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.default_(x.clone()); m.default_ = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_default_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s41 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option), build_fn(name = "finish"), no_std)]
    pub struct S {
        #[builder(pattern = "mutable", setter(name = "assign0", into), public)]
        pub __x: Vec<N>,
        #[builder(pattern = "owned", setter(into, custom), field(vis = "pub(super)"), public)]
        pub default_: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<Vec<N>>,
        pub default_: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => { return Err("__x") } },
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.default_ == want.default_, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.default_ == m.default_, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.assign0(x.clone()); m.__x = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.assign0(x.clone()); m.__x = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s42 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(setter(prefix = "with", into = false), default, custom_constructor, build_fn(name = "finish", error(validation_error = false)))]
    pub struct S {
        #[builder(pattern = "immutable", setter(into), field(public))]
        pub std: u32,
        #[builder(default = "Cp(7)")]
        pub self_: Cp,
        #[builder(setter(strip_option))]
        pub a: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<u32>,
        pub self_: Option<Cp>,
        pub a: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            self_: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => dflt.std.clone() },
            self_: match m.self_.clone() { Some(v) => v, None => Cp(7) },
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.self_ == want.self_, 101);
                check(got.a == want.a, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.self_ == m.self_, 201);
        check(b.a == m.a, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.with_std(x.clone()); slots(&b, &m); b = nb; m.std = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.with_std(x.clone()); slots(&b, &m); b = nb; m.std = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.with_self_(x.clone()); m.self_ = Some(x); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.with_a(x.clone()); m.a = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s43 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option = false), default = "S { converted: Some(None), Upper: Some(N(7)) }", no_std, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(into, name = "give0"))]
        pub converted: Option<Option<N>>,
        #[builder(setter(strip_option))]
        pub Upper: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<Option<Option<N>>>,
        pub Upper: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { converted: Some(None), Upper: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.Upper == want.Upper, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.Upper == m.Upper, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.give0(x.clone()); m.converted = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.give0(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: N = N(any_u32("v")); b = b.Upper(x.clone()); m.Upper = Some(Some(x)); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.Upper(x.clone()); m.Upper = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s44 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(skip = false), build_fn(name = "finish"), no_std)]
    pub struct S {
        #[builder(setter(into), default = "Some(Cp(7))")]
        pub converted: Option<Cp>,
        #[builder(setter(strip_option = false))]
        pub value: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<Option<Cp>>,
        pub value: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => Some(Cp(7)) },
            value: match m.value.clone() { Some(v) => v, None => { return Err("value") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.value == want.value, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.value == m.value, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.value(x.clone()); m.value = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s45 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "with", into), default = "S { r#type: Some(None), Upper: (7, 8) }", build_fn(error(validation_error = false)))]
    pub struct S {
        #[builder(setter(into), default = "Some(None)", vis = "pub(crate)")]
        pub r#type: Option<Option<N>>,
        #[builder(pattern = "mutable", setter(into = false, name = "assign1"))]
        pub Upper: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<Option<Option<N>>>,
        pub Upper: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#type: Some(None), Upper: (7, 8) };
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Some(None) },
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.Upper == want.Upper, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.Upper == m.Upper, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut SBuilder = b.with_type(x.clone()); m.r#type = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.with_type(x.clone()); m.r#type = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.assign1(x.clone()); m.Upper = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s46 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into = false), try_setter)]
    pub struct S {
        #[builder(setter(strip_option = false, into), try_setter, default = "Some(N(7))")]
        pub result: Option<N>,
        #[builder(setter(name = "assign1", into), default, field(public))]
        pub item: Cp,
        #[builder(setter, default, public)]
        pub x1: u32,
        #[builder(setter, default = "Cp(7)")]
        pub f: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub result: Option<Option<N>>,
        pub item: Option<Cp>,
        pub x1: Option<u32>,
        pub f: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            result: Default::default(),
            item: Default::default(),
            x1: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            result: match m.result.clone() { Some(v) => v, None => Some(N(7)) },
            item: match m.item.clone() { Some(v) => v, None => Default::default() },
            x1: match m.x1.clone() { Some(v) => v, None => Default::default() },
            f: match m.f.clone() { Some(v) => v, None => Cp(7) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.result == want.result, 100);
                check(got.item == want.item, 101);
                check(got.x1 == want.x1, 102);
                check(got.f == want.f, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.result == m.result, 200);
        check(b.item == m.item, 201);
        check(b.x1 == m.x1, 202);
        check(b.f == m.f, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.result(x.clone()); slots(&b, &m); b = nb; m.result = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.result(x.clone()); slots(&b, &m); b = nb; m.result = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_result(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.assign1(x.clone()); slots(&b, &m); b = nb; m.item = Some(x); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.assign1(x.clone()); slots(&b, &m); b = nb; m.item = Some(xm); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_assign1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                6 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(x); }
                7 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_x1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                8 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.f(x.clone()); slots(&b, &m); b = nb; m.f = Some(x); }
                9 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_f(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s47 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "set", strip_option), custom_constructor, build_fn(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(into), default = "String::from(\"lit\")")]
        pub __x: String,
        #[builder(setter(prefix = "put"), field(build = "self.r#fn.unwrap_or(Cp(5))", public), private)]
        pub r#fn: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<String>,
        pub r#fn: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => String::from("lit") },
            r#fn: m.r#fn.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.r#fn == want.r#fn, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.r#fn == m.r#fn, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b.set___x(x.clone()); slots(&b, &m); b = nb; m.__x = Some(x); }
                1 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let nb: SBuilder = b.set___x(x.clone()); slots(&b, &m); b = nb; m.__x = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.put_fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s48 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(default = "S { f: (7, 8), result: Some(Some(Cp(7))), std: None, z9_: None }", custom_constructor, field(public))]
    pub struct S {
        #[builder(setter(into))]
        pub f: (u8, u16),
        #[builder(field(ty = "Option<Option<Cp>>"), public)]
        pub result: Option<Option<Cp>>,
        #[builder(setter(name = "give2", skip), default = "None")]
        pub std: ::std::option::Option<N>,
        #[builder(pattern = "immutable", setter(each(name = "each3", into), strip_option))]
        pub z9_: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<(u8, u16)>,
        pub result: Option<Option<Cp>>,
        pub z9_: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            result: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { f: (7, 8), result: Some(Some(Cp(7))), std: None, z9_: None };
        let _ = &dflt;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
            result: m.result.clone(),
            std: None,
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got.result == want.result, 101);
                check(got.std == want.std, 102);
                check(got.z9_ == want.z9_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b.result == m.result, 201);
        check(b.z9_ == m.z9_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.result = x.clone(); m.result = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.f(x.clone()); m.f = Some(x); }
                1 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; let _: &mut SBuilder = b.result(x.clone()); m.result = x; }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.each3(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = (m.z9_.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s49 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "set", strip_option), name = "Maker")]
    pub struct S {
        #[builder(setter(strip_option = false, into))]
        pub z9_: Option<Cp>,
        #[builder(pattern = "owned", setter(name = "assign1"), default = "Some(Cp(7))", public)]
        pub a: Option<Cp>,
        #[builder(pattern = "owned")]
        pub try_it: Cp,
        #[builder(setter(strip_option, custom = false), default = "Some(None)")]
        pub f: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<Option<Cp>>,
        pub a: Option<Option<Cp>>,
        pub try_it: Option<Cp>,
        pub f: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            a: Default::default(),
            try_it: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
            a: match m.a.clone() { Some(v) => v, None => Some(Cp(7)) },
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            f: match m.f.clone() { Some(v) => v, None => Some(None) },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.a == want.a, 101);
                check(got.try_it == want.try_it, 102);
                check(got.f == want.f, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.a == m.a, 201);
        check(b.try_it == m.try_it, 202);
        check(b.f == m.f, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: Maker = b.set_z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let nb: Maker = b.set_z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.assign1(x.clone()); m.a = Some(Some(x)); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.set_try_it(x.clone()); m.try_it = Some(x); }
                4 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: Maker = b.set_f(x.clone()); slots(&b, &m); b = nb; m.f = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s50 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(setter(strip_option), default, custom_constructor, build_fn(name = "finish", error(validation_error = false)), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(strip_option, into), default = "N(7)")]
        pub core: N,
        #[builder(setter(into, prefix = "put", each(name = "each1"), strip_option), default = "None")]
        pub r#fn: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<N>,
        pub r#fn: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => N(7) },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => None },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.r#fn == want.r#fn, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.r#fn == m.r#fn, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.core(x.clone()); m.core = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.core(x.clone()); m.core = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.put_fn(x.clone()); m.r#fn = Some(Some(x)); }
                3 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Coll = (m.r#fn.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s51 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter, default = "S { new: Some(Cp(7)), z9_: 7, err: Cp(7) }", derive(Debug))]
    pub struct S {
        #[builder(pattern = "owned", setter(into))]
        pub new: Option<Cp>,
        pub z9_: u32,
        #[builder(pattern = "immutable", setter(strip_option), field(build = "self.err.unwrap_or(Cp(5))"))]
        pub err: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<Option<Cp>>,
        pub z9_: Option<u32>,
        pub err: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            z9_: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { new: Some(Cp(7)), z9_: 7, err: Cp(7) };
        let _ = &dflt;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
            err: m.err.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.z9_ == want.z9_, 101);
                check(got.err == want.err, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b.z9_ == m.z9_, 201);
        check(b.err == m.err, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.new(x.clone()); m.new = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.new(x.clone()); m.new = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_new(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.z9_(x.clone()); m.z9_ = Some(x); }
                4 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_z9_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.err(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                6 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_err(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s52 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "with", into), build_fn(error(validation_error = false), private))]
    pub struct S {
        #[builder(setter(prefix = "put", into), try_setter, default = "vec![N(7)]", vis = "pub(crate)")]
        pub _under: Vec<N>,
        #[builder(pattern = "immutable", setter(each = "each1"))]
        pub a: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<Vec<N>>,
        pub a: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => vec![N(7)] },
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.a == want.a, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.a == m.a, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.put__under(x.clone()); m._under = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.put__under(x.clone()); m._under = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_put__under(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.with_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.with_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.each1(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.a, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s53 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { try_it: vec![N(7)], r#fn: Some(N(7)) }", name = "Maker")]
    pub struct S {
        #[builder(setter(into), default)]
        pub try_it: Vec<N>,
        #[builder(pattern = "owned", setter(name = "assign1", strip_option), try_setter, default = "Some(N(7))")]
        pub r#fn: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<Vec<N>>,
        pub r#fn: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { try_it: vec![N(7)], r#fn: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => Default::default() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Some(N(7)) },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.r#fn == want.r#fn, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.r#fn == m.r#fn, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.try_it(x.clone()); m.try_it = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.try_it(x.clone()); m.try_it = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: N = N(any_u32("v")); b = b.assign1(x.clone()); m.r#fn = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_assign1(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s54 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(into, strip_option = false, skip), try_setter, name = "Maker", build_fn(error(validation_error = false)))]
    pub struct S {
        #[builder(pattern = "owned", setter(into), try_setter)]
        pub build_with: u32,
        #[builder(setter(custom), field(public))]
        pub a: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => { return Err("build_with") } },
            a: Default::default(),
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.a == want.a, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); b = b.build_with(x.clone()); m.build_with = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.build_with(x.clone()); m.build_with = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_build_with(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s55 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into), default = "S { r#fn: Cp(7), try_it: Cp(7) }", custom_constructor, build_fn(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(into), default, field(vis = "pub(super)"), public)]
        pub r#fn: Cp,
        #[builder(default = "Cp(7)")]
        pub try_it: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<Cp>,
        pub try_it: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#fn: Cp(7), try_it: Cp(7) };
        let _ = &dflt;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            try_it: match m.try_it.clone() { Some(v) => v, None => Cp(7) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.try_it == want.try_it, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.try_it == m.try_it, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.r#fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.r#fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s56 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(strip_option, skip = false), default, build_fn(name = "finish"), no_std, private)]
    pub struct S {
        #[builder(setter(prefix = "put", into), default, field(vis = "pub(super)"), private)]
        pub core: Option<Cp>,
        #[builder(setter(into, strip_option, prefix = "put"))]
        pub wh: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<Option<Cp>>,
        pub wh: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => Default::default() },
            wh: match m.wh.clone() { Some(v) => v, None => dflt.wh.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.wh == want.wh, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.wh == m.wh, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.put_core(x.clone()); m.core = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.put_core(x.clone()); m.core = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.put_wh(x.clone()); m.wh = Some(Some(x)); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.put_wh(x.clone()); m.wh = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s57 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option), try_setter, build_fn(error(validation_error = false)))]
    pub struct S {
        #[builder(setter(name = "give0", into), try_setter, private)]
        pub item: u32,
        #[builder(pattern = "owned", setter(name = "assign1", into))]
        pub core: String,
        #[builder(default = "vec![N(7)]")]
        pub result: Vec<N>,
        #[builder(setter(each(name = "each3"), strip_option), try_setter)]
        pub converted: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<u32>,
        pub core: Option<String>,
        pub result: Option<Vec<N>>,
        pub converted: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            core: Default::default(),
            result: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
            result: match m.result.clone() { Some(v) => v, None => vec![N(7)] },
            converted: match m.converted.clone() { Some(v) => v, None => { return Err("converted") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.core == want.core, 101);
                check(got.result == want.result, 102);
                check(got.converted == want.converted, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.core == m.core, 201);
        check(b.result == m.result, 202);
        check(b.converted == m.converted, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: u32 = any_u32("v"); b = b.give0(x.clone()); m.item = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.give0(x.clone()); m.item = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_give0(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.assign1(x.clone()); m.core = Some(x); }
                4 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); b = b.assign1(x.clone()); m.core = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.result(x.clone()); m.result = Some(x); }
                6 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.result(x.clone()); m.result = Some(xm); check(convs() == c0 + 0, 80); }
                7 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_result(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                8 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.converted(x.clone()); m.converted = Some(Some(x)); }
                9 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.each3(x.clone()); { let c: &mut Coll = (m.converted.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s58 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", try_setter, default, custom_constructor, build_fn(name = "finish", error(validation_error = false)), field(public))]
    pub struct S {
        #[builder(setter(into))]
        pub f: Vec<N>,
        #[builder(pattern = "mutable", setter(strip_option = false, into), default)]
        pub value: String,
        #[builder(pattern = "mutable", setter(strip_option, into), default = "Some(Cp(7))", public)]
        pub build_with: Option<Cp>,
        #[builder(setter(each(name = "each3"), strip_option))]
        pub z9_: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<Vec<N>>,
        pub value: Option<String>,
        pub build_with: Option<Option<Cp>>,
        pub z9_: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            value: Default::default(),
            build_with: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
            value: match m.value.clone() { Some(v) => v, None => Default::default() },
            build_with: match m.build_with.clone() { Some(v) => v, None => Some(Cp(7)) },
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got.value == want.value, 101);
                check(got.build_with == want.build_with, 102);
                check(got.z9_ == want.z9_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b.value == m.value, 201);
        check(b.build_with == m.build_with, 202);
        check(b.z9_ == m.z9_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.f(x.clone()); m.f = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.f(x.clone()); m.f = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_f(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.value(x.clone()); m.value = Some(x); }
                4 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut SBuilder = b.value(x.clone()); m.value = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.build_with(x.clone()); m.build_with = Some(Some(x)); }
                6 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.build_with(x.clone()); m.build_with = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                7 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_build_with(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                8 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.z9_(x.clone()); m.z9_ = Some(Some(x)); }
                9 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.each3(x.clone()); { let c: &mut Coll = (m.z9_.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s59 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(into), default, name = "Maker", custom_constructor, build_fn(name = "finish"), derive(Debug))]
    pub struct S {
        #[builder(setter(name = "assign0", into), try_setter, field(vis = "pub(super)"), vis = "pub(crate)")]
        pub x1: Option<N>,
        pub self_: u32,
        #[builder(setter(skip), field(public))]
        pub _under: String,
        #[builder(setter(into), default = "Some(None)", field(vis = "pub(super)"))]
        pub result: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub x1: Option<Option<N>>,
        pub self_: Option<u32>,
        pub result: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            x1: Default::default(),
            self_: Default::default(),
            result: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            x1: match m.x1.clone() { Some(v) => v, None => dflt.x1.clone() },
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
            _under: dflt._under.clone(),
            result: match m.result.clone() { Some(v) => v, None => Some(None) },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.x1 == want.x1, 100);
                check(got.self_ == want.self_, 101);
                check(got._under == want._under, 102);
                check(got.result == want.result, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.x1 == m.x1, 200);
        check(b.self_ == m.self_, 201);
        check(b.result == m.result, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.result = x.clone(); m.result = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut Maker = b.assign0(x.clone()); m.x1 = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut Maker = b.assign0(x.clone()); m.x1 = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_assign0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: u32 = any_u32("v"); let _: &mut Maker = b.self_(x.clone()); m.self_ = Some(x); }
                4 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut Maker = b.self_(x.clone()); m.self_ = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut Maker = b.result(x.clone()); m.result = Some(x); }
                6 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let _: &mut Maker = b.result(x.clone()); m.result = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s60 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", name = "Maker", custom_constructor)]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(public))]
        pub default_: ::std::option::Option<N>,
        #[builder(setter(into, name = "assign1"), public)]
        pub std: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<::std::option::Option<N>>,
        pub std: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            std: match m.std.clone() { Some(v) => v, None => { return Err("std") } },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.std == want.std, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.std == m.std, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.default_(x.clone()); m.default_ = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_default_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.assign1(x.clone()); m.std = Some(x); }
                3 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.assign1(x.clone()); m.std = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s61 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with"), name = "Maker", create_empty = "blank", build_fn(name = "finish", vis = "pub(crate)"), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(strip_option), try_setter, default)]
        pub self_: Option<N>,
        #[builder(setter, field(ty = "Option<N>"))]
        pub Upper: Option<N>,
        #[builder(field(build = "self.err.unwrap_or(Cp(5))", vis = "pub(super)"))]
        pub err: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub self_: Option<Option<N>>,
        pub Upper: Option<N>,
        pub err: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            self_: Default::default(),
            Upper: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            self_: match m.self_.clone() { Some(v) => v, None => Default::default() },
            Upper: m.Upper.clone(),
            err: m.err.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.self_ == want.self_, 100);
                check(got.Upper == want.Upper, 101);
                check(got.err == want.err, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.self_ == m.self_, 200);
        check(b.Upper == m.Upper, 201);
        check(b.err == m.err, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.with_self_(x.clone()); m.self_ = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_self_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.with_Upper(x.clone()); m.Upper = x; }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.with_err(x.clone()); m.err = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s62 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", build_fn(public))]
    pub struct S {
        #[builder(setter(prefix = "put", strip_option), default = "Some(Cp(7))")]
        pub wh: Option<Cp>,
        #[builder(setter(into, name = "assign1"), try_setter, default = "(7, 8)")]
        pub result: (u8, u16),
        #[builder(pattern = "mutable", setter(into, strip_option = false, prefix = "put"), try_setter, field(vis = "pub(super)"))]
        pub a: ::std::option::Option<N>,
        #[builder(pattern = "owned", setter(name = "assign3", custom))]
        pub x1: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<Option<Cp>>,
        pub result: Option<(u8, u16)>,
        pub a: Option<::std::option::Option<N>>,
        pub x1: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            result: Default::default(),
            a: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            wh: match m.wh.clone() { Some(v) => v, None => Some(Cp(7)) },
            result: match m.result.clone() { Some(v) => v, None => (7, 8) },
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            x1: match m.x1.clone() { Some(v) => v, None => { return Err("x1") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.wh == want.wh, 100);
                check(got.result == want.result, 101);
                check(got.a == want.a, 102);
                check(got.x1 == want.x1, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 200);
        check(b.result == m.result, 201);
        check(b.a == m.a, 202);
        check(b.x1 == m.x1, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.put_wh(x.clone()); m.wh = Some(Some(x)); }
                1 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.assign1(x.clone()); m.result = Some(x); }
                2 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.put_a(x.clone()); m.a = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.put_a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_put_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s63 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", field(public))]
    pub struct S {
        #[builder(setter(into, prefix = "put", strip_option))]
        pub new: Option<N>,
        #[builder(setter(name = "give1"), try_setter, default = "String::from(\"lit\")")]
        pub r#type: String,
        #[builder(setter(strip_option))]
        pub default_: Option<Vec<N>>,
        #[builder(pattern = "immutable", default)]
        pub r#fn: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<Option<N>>,
        pub r#type: Option<String>,
        pub default_: Option<Option<Vec<N>>>,
        pub r#fn: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            r#type: Default::default(),
            default_: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => { return Err("new") } },
            r#type: match m.r#type.clone() { Some(v) => v, None => String::from("lit") },
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.r#type == want.r#type, 101);
                check(got.default_ == want.default_, 102);
                check(got.r#fn == want.r#fn, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b.r#type == m.r#type, 201);
        check(b.default_ == m.default_, 202);
        check(b.r#fn == m.r#fn, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.put_new(x.clone()); m.new = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.put_new(x.clone()); m.new = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.give1(x.clone()); m.r#type = Some(x); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.default_(x.clone()); m.default_ = Some(Some(x)); }
                4 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.r#fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s64 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(strip_option = false), try_setter, default)]
    pub struct S {
        #[builder(pattern = "mutable", setter(name = "assign0", strip_option), try_setter, default = "Some(Cp(7))")]
        pub build_with: Option<Cp>,
        #[builder(pattern = "immutable", setter(prefix = "put", name = "assign1"), default, field(public), private)]
        pub std: N,
        #[builder(setter(strip_option = false), try_setter)]
        pub Upper: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<Option<Cp>>,
        pub std: Option<N>,
        pub Upper: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            std: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => Some(Cp(7)) },
            std: match m.std.clone() { Some(v) => v, None => Default::default() },
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.std == want.std, 101);
                check(got.Upper == want.Upper, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b.std == m.std, 201);
        check(b.Upper == m.Upper, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.assign0(x.clone()); m.build_with = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_assign0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.assign1(x.clone()); slots(&b, &m); b = nb; m.std = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_assign1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                4 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.Upper(x.clone()); m.Upper = Some(x); }
                5 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_Upper(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s65 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into), custom_constructor, build_fn(name = "finish"), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "mutable", setter(strip_option), try_setter)]
        pub a: Option<Cp>,
        #[builder(setter(strip_option = false, skip))]
        pub Upper: Option<Cp>,
        #[builder(pattern = "immutable", setter(into = false, name = "assign2", each(name = "each2", into)), default = "vec![N(7)]")]
        pub b: Vec<N>,
        #[builder(setter(into = false, skip), try_setter)]
        pub item: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            Upper: Default::default(),
            b: match m.b.clone() { Some(v) => v, None => vec![N(7)] },
            item: Default::default(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.Upper == want.Upper, 101);
                check(got.b == want.b, 102);
                check(got.item == want.item, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.assign2(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.each2(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s66 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(strip_option), build_fn(name = "finish"), no_std, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(name = "assign0", strip_option), vis = "pub(crate)")]
        pub err: Option<N>,
        #[builder(pattern = "immutable", setter(name = "give1"))]
        pub std: N,
        #[builder(try_setter, default, field(vis = "pub(super)"))]
        pub self_: Option<N>,
        pub core: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<Option<N>>,
        pub std: Option<N>,
        pub self_: Option<Option<N>>,
        pub core: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            std: Default::default(),
            self_: Default::default(),
            core: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => { return Err("err") } },
            std: match m.std.clone() { Some(v) => v, None => { return Err("std") } },
            self_: match m.self_.clone() { Some(v) => v, None => Default::default() },
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.std == want.std, 101);
                check(got.self_ == want.self_, 102);
                check(got.core == want.core, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.std == m.std, 201);
        check(b.self_ == m.self_, 202);
        check(b.core == m.core, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.core = x.clone(); m.core = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.assign0(x.clone()); m.err = Some(Some(x)); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.give1(x.clone()); slots(&b, &m); b = nb; m.std = Some(x); }
                2 => { let x: N = N(any_u32("v")); b = b.self_(x.clone()); m.self_ = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_self_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                4 => { let x: Cp = Cp(any_u32("v")); b = b.core(x.clone()); m.core = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s67 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "set", strip_option), default = "S { std: None, a: 7, Upper: 7 }", name = "Maker", custom_constructor, no_std, field(public), derive(Debug))]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub std: ::std::option::Option<N>,
        #[builder(setter(into), default = "7")]
        pub a: u32,
        #[builder(setter, try_setter)]
        pub Upper: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<::std::option::Option<N>>,
        pub a: Option<u32>,
        pub Upper: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            a: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { std: None, a: 7, Upper: 7 };
        let _ = &dflt;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => dflt.std.clone() },
            a: match m.a.clone() { Some(v) => v, None => 7 },
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.a == want.a, 101);
                check(got.Upper == want.Upper, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.a == m.a, 201);
        check(b.Upper == m.Upper, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); let nb: Maker = b.set_std(x.clone()); slots(&b, &m); b = nb; m.std = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_set_std(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); let nb: Maker = b.set_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                3 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: Maker = b.set_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x: u32 = any_u32("v"); let nb: Maker = b.set_Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(x); }
                5 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_set_Upper(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s68 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(prefix = "set"), build_fn(error(validation_error = false)), private, field(public))]
    pub struct S {
        #[builder(pattern = "mutable", setter(name = "give0", strip_option))]
        pub item: Option<N>,
        #[builder(pattern = "mutable", setter(each(name = "each1", into), strip_option), default = "Some(vec![N(7)])")]
        pub self_: Option<Vec<N>>,
        #[builder(setter(into = false, strip_option, each(name = "each2")), default = "None")]
        pub build_with: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<Option<N>>,
        pub self_: Option<Option<Vec<N>>>,
        pub build_with: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            self_: Default::default(),
            build_with: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            self_: match m.self_.clone() { Some(v) => v, None => Some(vec![N(7)]) },
            build_with: match m.build_with.clone() { Some(v) => v, None => None },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.self_ == want.self_, 101);
                check(got.build_with == want.build_with, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.self_ == m.self_, 201);
        check(b.build_with == m.build_with, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.give0(x.clone()); m.item = Some(Some(x)); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.set_self_(x.clone()); m.self_ = Some(Some(x)); }
                2 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Vec<N> = (m.self_.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                3 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.set_build_with(x.clone()); m.build_with = Some(Some(x)); }
                4 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.each2(x.clone()); { let c: &mut Coll = (m.build_with.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s69 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into = false), try_setter, name = "Maker", private, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(strip_option))]
        pub f: Option<N>,
        #[builder(pattern = "immutable", setter(into), default)]
        pub r#type: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<Option<N>>,
        pub r#type: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => { return Err("f") } },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got.r#type == want.r#type, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b.r#type == m.r#type, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.f(x.clone()); m.f = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_f(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: Maker = b.r#type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(x); }
                3 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let nb: Maker = b.r#type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s70 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(into), try_setter, default, custom_constructor, build_fn(error(validation_error = false)))]
    pub struct S {
        #[builder(pattern = "immutable", setter(strip_option), default = "Some(None)")]
        pub z9_: Option<Option<N>>,
        #[builder(pattern = "immutable", try_setter, field(ty = "Option<N>", public))]
        pub result: Option<N>,
        #[builder(pattern = "mutable", setter(into), try_setter)]
        pub self_: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<Option<Option<N>>>,
        pub result: Option<N>,
        pub self_: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            result: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => Some(None) },
            result: m.result.clone(),
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.result == want.result, 101);
                check(got.self_ == want.self_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.result == m.result, 201);
        check(b.self_ == m.self_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 10) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(Some(x)); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_z9_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.result(x.clone()); slots(&b, &m); b = nb; m.result = x; }
                4 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.result(x.clone()); slots(&b, &m); b = nb; m.result = xm; check(convs() == c0 + 0, 80); }
                5 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_result(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                6 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.self_(x.clone()); m.self_ = Some(x); }
                7 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.self_(x.clone()); m.self_ = Some(xm); check(convs() == c0 + 0, 80); }
                8 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_self_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s71 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(into = false), try_setter, default, create_empty = "blank", build_fn(error(validation_error = false)), derive(Debug))]
    pub struct S {
        #[builder(setter(strip_option))]
        pub wh: Option<Option<N>>,
        #[builder(setter(strip_option))]
        pub x1: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<Option<Option<N>>>,
        pub x1: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            wh: match m.wh.clone() { Some(v) => v, None => dflt.wh.clone() },
            x1: match m.x1.clone() { Some(v) => v, None => dflt.x1.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.wh == want.wh, 100);
                check(got.x1 == want.x1, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 200);
        check(b.x1 == m.x1, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.wh(x.clone()); m.wh = Some(Some(x)); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_wh(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.x1(x.clone()); m.x1 = Some(Some(x)); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_x1(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s72 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with"), try_setter, derive(Debug))]
    pub struct S {
        #[builder(setter(strip_option))]
        pub x1: Option<Cp>,
        #[builder(setter(into), field(public))]
        pub build_with: Cp,
        #[builder(pattern = "owned", try_setter)]
        pub try_it: Cp,
        #[builder(setter(each(name = "each3")))]
        pub default_: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub x1: Option<Option<Cp>>,
        pub build_with: Option<Cp>,
        pub try_it: Option<Cp>,
        pub default_: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            x1: Default::default(),
            build_with: Default::default(),
            try_it: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            x1: match m.x1.clone() { Some(v) => v, None => { return Err("x1") } },
            build_with: match m.build_with.clone() { Some(v) => v, None => { return Err("build_with") } },
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.x1 == want.x1, 100);
                check(got.build_with == want.build_with, 101);
                check(got.try_it == want.try_it, 102);
                check(got.default_ == want.default_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.x1 == m.x1, 200);
        check(b.build_with == m.build_with, 201);
        check(b.try_it == m.try_it, 202);
        check(b.default_ == m.default_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.with_x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_with_x1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.with_build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.with_build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_with_build_with(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: Cp = Cp(any_u32("v")); b = b.with_try_it(x.clone()); m.try_it = Some(x); }
                6 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_try_it(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.try_it = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                7 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.with_default_(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(x); }
                8 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_with_default_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                9 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.each3(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.default_, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s73 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(prefix = "with", into, strip_option = false), default, custom_constructor)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub __x: ::std::option::Option<N>,
        #[builder(pattern = "mutable", setter(each = "each1"))]
        pub f: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<::std::option::Option<N>>,
        pub f: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.f == want.f, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.f == m.f, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.with___x(x.clone()); m.__x = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.with___x(x.clone()); m.__x = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.with_f(x.clone()); m.f = Some(x); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.with_f(x.clone()); m.f = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.f, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s74 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { core: None, try_it: Some(Cp(7)), _under: vec![N(7)] }")]
    pub struct S {
        #[builder(setter(into = false, name = "give0", strip_option))]
        pub core: ::std::option::Option<N>,
        #[builder(pattern = "owned", setter(strip_option))]
        pub try_it: Option<Cp>,
        #[builder(setter(into, prefix = "put", name = "give2"), try_setter, private)]
        pub _under: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<::std::option::Option<N>>,
        pub try_it: Option<Option<Cp>>,
        pub _under: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            try_it: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { core: None, try_it: Some(Cp(7)), _under: vec![N(7)] };
        let _ = &dflt;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => dflt.core.clone() },
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
            _under: match m._under.clone() { Some(v) => v, None => dflt._under.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.try_it == want.try_it, 101);
                check(got._under == want._under, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.try_it == m.try_it, 201);
        check(b._under == m._under, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.give0(x.clone()); m.core = Some(Some(x)); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.try_it(x.clone()); m.try_it = Some(Some(x)); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.give2(x.clone()); m._under = Some(x); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.give2(x.clone()); m._under = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_give2(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s75 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter, default = "S { build_: Some(N(8)), b: (7, 8), converted: 7, x1: Some(vec![N(7)]) }", build_fn(error(validation_error = false), public))]
    pub struct S {
        #[builder(setter(prefix = "put", strip_option), field(public))]
        pub build_: core::option::Option<N>,
        #[builder(pattern = "mutable", setter, default = "(7, 8)")]
        pub b: (u8, u16),
        #[builder(pattern = "owned", try_setter, field(ty = "Cp", build = "self.converted.0", vis = "pub(super)"))]
        pub converted: u32,
        #[builder(pattern = "immutable", setter(each(name = "each3"), strip_option), default)]
        pub x1: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_: Option<core::option::Option<N>>,
        pub b: Option<(u8, u16)>,
        pub converted: Cp,
        pub x1: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_: Default::default(),
            b: Default::default(),
            converted: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { build_: Some(N(8)), b: (7, 8), converted: 7, x1: Some(vec![N(7)]) };
        let _ = &dflt;
        Ok(S {
            build_: match m.build_.clone() { Some(v) => v, None => dflt.build_.clone() },
            b: match m.b.clone() { Some(v) => v, None => (7, 8) },
            converted: m.converted.0,
            x1: match m.x1.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_ == want.build_, 100);
                check(got.b == want.b, 101);
                check(got.converted == want.converted, 102);
                check(got.x1 == want.x1, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_ == m.build_, 200);
        check(b.b == m.b, 201);
        check(b.converted == m.converted, 202);
        check(b.x1 == m.x1, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Cp = Cp(any_u32("v"));
            b.converted = x.clone(); m.converted = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: N = N(any_u32("v")); b = b.put_build_(x.clone()); m.build_ = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_build_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.converted(x.clone()); m.converted = x; }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_converted(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                5 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(Some(x)); }
                6 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_x1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                7 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.each3(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.x1.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s76 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into), try_setter, default = "S { _under: None, new: Cp(7), default_: Cp(7), try_it: (7, 8) }", build_fn(public), no_std, field(vis = "pub(crate)"), derive(Debug))]
    pub struct S {
        #[builder(pattern = "immutable", setter(into, strip_option))]
        pub _under: ::std::option::Option<N>,
        #[builder(public)]
        pub new: Cp,
        #[builder(setter(name = "assign2"), field(build = "self.default_.unwrap_or(Cp(5))"))]
        pub default_: Cp,
        #[builder(try_setter)]
        pub try_it: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<::std::option::Option<N>>,
        pub new: Option<Cp>,
        pub default_: Option<Cp>,
        pub try_it: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            new: Default::default(),
            default_: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { _under: None, new: Cp(7), default_: Cp(7), try_it: (7, 8) };
        let _ = &dflt;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => dflt._under.clone() },
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
            default_: m.default_.unwrap_or(Cp(5)),
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.new == want.new, 101);
                check(got.default_ == want.default_, 102);
                check(got.try_it == want.try_it, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.new == m.new, 201);
        check(b.default_ == m.default_, 202);
        check(b.try_it == m.try_it, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b._under(x.clone()); slots(&b, &m); b = nb; m._under = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b._under(x.clone()); slots(&b, &m); b = nb; m._under = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try__under(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.new(x.clone()); slots(&b, &m); b = nb; m.new = Some(x); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.new(x.clone()); slots(&b, &m); b = nb; m.new = Some(xm); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_new(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                6 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.assign2(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(x); }
                7 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.assign2(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(xm); check(convs() == c0 + 1, 80); }
                8 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_assign2(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                9 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: SBuilder = b.try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s77 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set"), create_empty = "blank", build_fn(vis = "pub(crate)"), private)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub self_: ::std::option::Option<N>,
        #[builder(pattern = "mutable", setter(name = "give1", custom = false))]
        pub __x: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub self_: Option<::std::option::Option<N>>,
        pub __x: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            self_: Default::default(),
            __x: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            self_: match m.self_.clone() { Some(v) => v, None => { return Err("self_") } },
            __x: match m.__x.clone() { Some(v) => v, None => { return Err("__x") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.self_ == want.self_, 100);
                check(got.__x == want.__x, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.self_ == m.self_, 200);
        check(b.__x == m.__x, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.__x = x.clone(); m.__x = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: N = N(any_u32("v")); b = b.set_self_(x.clone()); m.self_ = Some(Some(x)); }
                1 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.give1(x.clone()); m.__x = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s78 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default, field(public), derive(Debug))]
    pub struct S {
        #[builder(setter(prefix = "put", strip_option))]
        pub __x: Option<Vec<N>>,
        #[builder(setter(custom), try_setter, default = "(7, 8)", private)]
        pub item: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<Option<Vec<N>>>,
        pub item: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            item: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            item: match m.item.clone() { Some(v) => v, None => (7, 8) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.item == want.item, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.item == m.item, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.item = x.clone(); m.item = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.put___x(x.clone()); m.__x = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s79 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(setter(strip_option), try_setter, default, create_empty = "blank", build_fn(name = "finish"), derive(Debug))]
    pub struct S {
        #[builder(setter(into, strip_option))]
        pub a: Option<Vec<N>>,
        #[builder(pattern = "immutable", setter(into = false, prefix = "put"), default)]
        pub z9_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub z9_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            z9_: match m.z9_.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.z9_ == want.z9_, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.z9_ == m.z9_, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.put_z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_z9_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s80 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(default = "S { __x: Some(Cp(7)), x1: vec![N(7)], converted: vec![N(7)], self_: 7 }", build_fn(name = "finish", vis = "pub(crate)"), field(public), derive(Debug))]
    pub struct S {
        #[builder(setter(strip_option), private)]
        pub __x: Option<Cp>,
        #[builder(try_setter, field(vis = "pub(super)"), private)]
        pub x1: Vec<N>,
        #[builder(setter(strip_option = false, prefix = "put"), try_setter)]
        pub converted: Vec<N>,
        #[builder(pattern = "mutable", try_setter, public)]
        pub self_: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<Option<Cp>>,
        pub x1: Option<Vec<N>>,
        pub converted: Option<Vec<N>>,
        pub self_: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            x1: Default::default(),
            converted: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { __x: Some(Cp(7)), x1: vec![N(7)], converted: vec![N(7)], self_: 7 };
        let _ = &dflt;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            x1: match m.x1.clone() { Some(v) => v, None => dflt.x1.clone() },
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.x1 == want.x1, 101);
                check(got.converted == want.converted, 102);
                check(got.self_ == want.self_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.x1 == m.x1, 201);
        check(b.converted == m.converted, 202);
        check(b.self_ == m.self_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.__x(x.clone()); m.__x = Some(Some(x)); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.x1(x.clone()); m.x1 = Some(x); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_x1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.put_converted(x.clone()); m.converted = Some(x); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_put_converted(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.self_(x.clone()); m.self_ = Some(x); }
                6 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_self_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s81 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(into = false), try_setter, default, private, field(public))]
    pub struct S {
        #[builder(pattern = "mutable", setter(name = "assign0", strip_option), field(public))]
        pub f: ::std::option::Option<N>,
        #[builder(setter(strip_option), vis = "pub(crate)")]
        pub converted: Option<Option<N>>,
        #[builder(setter(prefix = "put", each(name = "each2"), strip_option))]
        pub value: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<::std::option::Option<N>>,
        pub converted: Option<Option<Option<N>>>,
        pub value: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            converted: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            value: match m.value.clone() { Some(v) => v, None => dflt.value.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got.converted == want.converted, 101);
                check(got.value == want.value, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b.converted == m.converted, 201);
        check(b.value == m.value, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.assign0(x.clone()); m.f = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_assign0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.converted(x.clone()); slots(&b, &m); b = nb; m.converted = Some(Some(x)); }
                3 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_converted(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.put_value(x.clone()); slots(&b, &m); b = nb; m.value = Some(Some(x)); }
                5 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_put_value(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.value = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                6 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.each2(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.value.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s82 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set", into), try_setter, default = "S { _under: Some(None), __x: Some(N(7)) }", build_fn(error(validation_error = false)), derive(Debug))]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub _under: Option<Option<N>>,
        #[builder(setter(prefix = "put", name = "assign1"), try_setter, field(ty = "Option<N>"))]
        pub __x: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<Option<Option<N>>>,
        pub __x: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            __x: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { _under: Some(None), __x: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => dflt._under.clone() },
            __x: m.__x.clone(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.__x == want.__x, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.__x == m.__x, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None };
            b.__x = x.clone(); m.__x = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.set__under(x.clone()); m._under = Some(Some(x)); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.set__under(x.clone()); m._under = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_set__under(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.assign1(x.clone()); m.__x = x; }
                4 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.assign1(x.clone()); m.__x = xm; check(convs() == c0 + 0, 80); }
                5 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_assign1(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s83 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(strip_option, prefix = "put"), default, private)]
        pub b: core::option::Option<N>,
        #[builder(pattern = "immutable", setter(into), public)]
        pub Upper: Option<Option<N>>,
        #[builder(pattern = "immutable", setter(name = "assign2", each(name = "each2")))]
        pub try_it: Vec<N>,
        #[builder(pattern = "owned", setter(strip_option, prefix = "put", skip), try_setter)]
        pub value: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<core::option::Option<N>>,
        pub Upper: Option<Option<Option<N>>>,
        pub try_it: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            Upper: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            Upper: match m.Upper.clone() { Some(v) => v, None => { return Err("Upper") } },
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            value: Default::default(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.Upper == want.Upper, 101);
                check(got.try_it == want.try_it, 102);
                check(got.value == want.value, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.Upper == m.Upper, 201);
        check(b.try_it == m.try_it, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.put_b(x.clone()); m.b = Some(Some(x)); }
                1 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let nb: SBuilder = b.Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(x); }
                2 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.assign2(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(x); }
                4 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.each2(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.try_it, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s84 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "with", strip_option = false), try_setter, default, create_empty = "blank", no_std)]
    pub struct S {
        #[builder(setter(strip_option), vis = "pub(crate)")]
        pub z9_: Option<N>,
        #[builder(setter(into, name = "assign1"))]
        pub value: Option<Option<N>>,
        #[builder(setter, default = "Cp(7)")]
        pub r#type: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<Option<N>>,
        pub value: Option<Option<Option<N>>>,
        pub r#type: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            value: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
            value: match m.value.clone() { Some(v) => v, None => dflt.value.clone() },
            r#type: match m.r#type.clone() { Some(v) => v, None => Cp(7) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.value == want.value, 101);
                check(got.r#type == want.r#type, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.value == m.value, 201);
        check(b.r#type == m.r#type, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); b = b.with_z9_(x.clone()); m.z9_ = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_z9_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.assign1(x.clone()); m.value = Some(x); }
                3 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.assign1(x.clone()); m.value = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x: Cp = Cp(any_u32("v")); b = b.with_type(x.clone()); m.r#type = Some(x); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_type(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s85 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(into), default, create_empty = "blank", private)]
    pub struct S {
        #[builder(setter(prefix = "put", strip_option))]
        pub b: Option<Option<N>>,
        #[builder(pattern = "mutable", setter(strip_option = false, prefix = "put", custom = false), try_setter)]
        pub result: ::std::option::Option<N>,
        #[builder(setter(name = "give2"), field(ty = "Option<Cp>", build = "std::mem::size_of_val(&self.a) as u32"))]
        pub a: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Option<Option<N>>>,
        pub result: Option<::std::option::Option<N>>,
        pub a: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            result: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            result: match m.result.clone() { Some(v) => v, None => dflt.result.clone() },
            a: std::mem::size_of_val(&m.a) as u32,
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.result == want.result, 101);
                check(got.a == want.a, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.result == m.result, 201);
        check(b.a == m.a, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.put_b(x.clone()); m.b = Some(Some(x)); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.put_b(x.clone()); m.b = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.put_result(x.clone()); m.result = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.put_result(x.clone()); m.result = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_put_result(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.give2(x.clone()); m.a = x; }
                6 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.give2(x.clone()); m.a = xm; check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s86 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(default, build_fn(error(validation_error = false)), derive(Debug))]
    pub struct S {
        #[builder(pattern = "mutable", setter(prefix = "put", name = "assign0", strip_option), field(vis = "pub(super)"))]
        pub x1: ::std::option::Option<N>,
        #[builder(pattern = "mutable", field(ty = "Option<Option<Cp>>", build = "std::mem::size_of_val(&self.new) as u32", vis = "pub(super)"))]
        pub new: u32,
        #[builder(setter(strip_option = false, name = "assign2", skip), default = "7", field(private), vis = "pub(crate)")]
        pub try_it: u32,
        #[builder(setter(into = false, strip_option), try_setter)]
        pub result: core::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub x1: Option<::std::option::Option<N>>,
        pub new: Option<Option<Cp>>,
        pub result: Option<core::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            x1: Default::default(),
            new: Default::default(),
            result: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            x1: match m.x1.clone() { Some(v) => v, None => dflt.x1.clone() },
            new: std::mem::size_of_val(&m.new) as u32,
            try_it: 7,
            result: match m.result.clone() { Some(v) => v, None => dflt.result.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.x1 == want.x1, 100);
                check(got.new == want.new, 101);
                check(got.try_it == want.try_it, 102);
                check(got.result == want.result, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.x1 == m.x1, 200);
        check(b.new == m.new, 201);
        check(b.result == m.result, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.new = x.clone(); m.new = x;
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.result = x.clone(); m.result = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.assign0(x.clone()); m.x1 = Some(Some(x)); }
                1 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; let _: &mut SBuilder = b.new(x.clone()); m.new = x; }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.result(x.clone()); m.result = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_result(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s87 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(into), default, name = "Maker", create_empty = "blank", custom_constructor)]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(public))]
        pub new: Option<N>,
        #[builder(setter(into), try_setter, public)]
        pub item: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<Option<N>>,
        pub item: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            item: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.item == want.item, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b.item == m.item, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::blank();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); let _: &mut Maker = b.new(x.clone()); m.new = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.new(x.clone()); m.new = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_new(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut Maker = b.item(x.clone()); m.item = Some(x); }
                4 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut Maker = b.item(x.clone()); m.item = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_item(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s88 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", into), default = "S { item: Some(Cp(7)), core: (7, 8), __x: vec![N(7)], wh: N(7) }", create_empty = "blank", custom_constructor, field(public))]
    pub struct S {
        #[builder(pattern = "immutable", setter(into, strip_option), default)]
        pub item: Option<Cp>,
        #[builder(setter(name = "assign1"), default = "(7, 8)")]
        pub core: (u8, u16),
        #[builder(setter(into = false, each = "each2"))]
        pub __x: Vec<N>,
        #[builder(setter(prefix = "put"), field(private), public)]
        pub wh: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<Option<Cp>>,
        pub core: Option<(u8, u16)>,
        pub __x: Option<Vec<N>>,
        pub wh: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            core: Default::default(),
            __x: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { item: Some(Cp(7)), core: (7, 8), __x: vec![N(7)], wh: N(7) };
        let _ = &dflt;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => Default::default() },
            core: match m.core.clone() { Some(v) => v, None => (7, 8) },
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            wh: match m.wh.clone() { Some(v) => v, None => dflt.wh.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.core == want.core, 101);
                check(got.__x == want.__x, 102);
                check(got.wh == want.wh, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.core == m.core, 201);
        check(b.__x == m.__x, 202);
        check(b.wh == m.wh, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.with_item(x.clone()); slots(&b, &m); b = nb; m.item = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.with_item(x.clone()); slots(&b, &m); b = nb; m.item = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.assign1(x.clone()); m.core = Some(x); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.with___x(x.clone()); m.__x = Some(x); }
                4 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.__x, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                5 => { let x: N = N(any_u32("v")); b = b.put_wh(x.clone()); m.wh = Some(x); }
                6 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.put_wh(x.clone()); m.wh = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s89 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(strip_option))]
    pub struct S {
        #[builder(setter(strip_option), default)]
        pub default_: Option<Vec<N>>,
        #[builder(try_setter, field(public))]
        pub wh: Option<Cp>,
        #[builder(field(vis = "pub(super)"))]
        pub item: Option<Cp>,
        #[builder(setter(strip_option = false), field(build = "self.r#type.unwrap_or(Cp(5))", private))]
        pub r#type: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<Option<Vec<N>>>,
        pub wh: Option<Option<Cp>>,
        pub item: Option<Option<Cp>>,
        pub r#type: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            wh: Default::default(),
            item: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => Default::default() },
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            r#type: m.r#type.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.wh == want.wh, 101);
                check(got.item == want.item, 102);
                check(got.r#type == want.r#type, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.wh == m.wh, 201);
        check(b.item == m.item, 202);
        check(b.r#type == m.r#type, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.default_(x.clone()); m.default_ = Some(Some(x)); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.wh(x.clone()); m.wh = Some(Some(x)); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_wh(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.item(x.clone()); m.item = Some(Some(x)); }
                4 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.r#type(x.clone()); m.r#type = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s90 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into, skip), create_empty = "blank", build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub core: ::std::option::Option<N>,
        #[builder(try_setter, field(public))]
        pub z9_: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
            z9_: Default::default(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.z9_ == want.z9_, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.core(x.clone()); slots(&b, &m); b = nb; m.core = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.core(x.clone()); slots(&b, &m); b = nb; m.core = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_core(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.core = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s91 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set"), field(public))]
    pub struct S {
        #[builder(setter(prefix = "put", strip_option), private)]
        pub default_: ::std::option::Option<N>,
        #[builder(setter(into, each = "each1"), default, vis = "pub(crate)")]
        pub r#type: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<::std::option::Option<N>>,
        pub r#type: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.r#type == want.r#type, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.r#type == m.r#type, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.put_default_(x.clone()); m.default_ = Some(Some(x)); }
                1 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.set_type(x.clone()); m.r#type = Some(x); }
                2 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.each1(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.r#type, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s92 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(strip_option = false, skip), try_setter, build_fn(private), derive(Debug))]
    pub struct S {
        #[builder(pattern = "immutable", setter(strip_option), try_setter, vis = "pub(crate)")]
        pub __x: Option<Vec<N>>,
        #[builder(setter(name = "give1"), try_setter)]
        pub item: u32,
        #[builder(try_setter, field(vis = "pub(super)"))]
        pub x1: u32,
        #[builder(pattern = "mutable", try_setter)]
        pub value: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<Option<Vec<N>>>,
        pub item: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            item: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => { return Err("__x") } },
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            x1: Default::default(),
            value: Default::default(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.item == want.item, 101);
                check(got.x1 == want.x1, 102);
                check(got.value == want.value, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.item == m.item, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.item = x.clone(); m.item = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.__x(x.clone()); slots(&b, &m); b = nb; m.__x = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try___x(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.give1(x.clone()); slots(&b, &m); b = nb; m.item = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_give1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s93 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default, create_empty = "blank", custom_constructor, build_fn(name = "finish", public), private, field(public))]
    pub struct S {
        #[builder(setter(strip_option))]
        pub Upper: ::std::option::Option<N>,
        #[builder(setter(into), try_setter, field(private), vis = "pub(crate)")]
        pub converted: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub Upper: Option<::std::option::Option<N>>,
        pub converted: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            Upper: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.Upper == want.Upper, 100);
                check(got.converted == want.converted, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.Upper == m.Upper, 200);
        check(b.converted == m.converted, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.Upper(x.clone()); m.Upper = Some(Some(x)); }
                1 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(x); }
                2 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_converted(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s94 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(skip = false), try_setter, default = "S { a: Some(vec![N(7)]), b: Some(N(7)), x1: 7 }", name = "Maker", build_fn(name = "finish"), field(public))]
    pub struct S {
        #[builder(pattern = "mutable", setter(strip_option), try_setter, field(public))]
        pub a: Option<Vec<N>>,
        #[builder(setter(name = "give1", into))]
        pub b: Option<N>,
        #[builder(setter(into, skip = false), default = "7", field(private))]
        pub x1: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub b: Option<Option<N>>,
        pub x1: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Some(vec![N(7)]), b: Some(N(7)), x1: 7 };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            x1: match m.x1.clone() { Some(v) => v, None => 7 },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.x1 == want.x1, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.x1 == m.x1, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut Maker = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.give1(x.clone()); m.b = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.give1(x.clone()); m.b = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_give1(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                5 => { let x: u32 = any_u32("v"); b = b.x1(x.clone()); m.x1 = Some(x); }
                6 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.x1(x.clone()); m.x1 = Some(xm); check(convs() == c0 + 0, 80); }
                7 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_x1(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s95 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter, default = "S { b: Some(N(7)), __x: String::from(\"lit\"), try_it: Cp(7), Upper: None }", build_fn(name = "finish", vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "mutable", setter(into, strip_option))]
        pub b: Option<N>,
        #[builder(setter(into))]
        pub __x: String,
        #[builder(setter(prefix = "put"), try_setter, field(build = "self.try_it.unwrap_or(Cp(5))"))]
        pub try_it: Cp,
        #[builder(setter(prefix = "put", custom = false), vis = "pub(crate)")]
        pub Upper: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Option<N>>,
        pub __x: Option<String>,
        pub try_it: Option<Cp>,
        pub Upper: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            __x: Default::default(),
            try_it: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { b: Some(N(7)), __x: String::from("lit"), try_it: Cp(7), Upper: None };
        let _ = &dflt;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            try_it: m.try_it.unwrap_or(Cp(5)),
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.__x == want.__x, 101);
                check(got.try_it == want.try_it, 102);
                check(got.Upper == want.Upper, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.__x == m.__x, 201);
        check(b.try_it == m.try_it, 202);
        check(b.Upper == m.Upper, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 10) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b.__x(x.clone()); slots(&b, &m); b = nb; m.__x = Some(x); }
                4 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let nb: SBuilder = b.__x(x.clone()); slots(&b, &m); b = nb; m.__x = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.put_try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(x); }
                6 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_try_it(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.try_it = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                7 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.put_Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(x); }
                8 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_put_Upper(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s96 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", strip_option), no_std)]
    pub struct S {
        #[builder(setter(name = "assign0", strip_option), field(private))]
        pub b: Option<Cp>,
        #[builder(setter(strip_option = false, name = "assign1"), try_setter, default)]
        pub Upper: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Option<Cp>>,
        pub Upper: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            Upper: match m.Upper.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.Upper == want.Upper, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.Upper == m.Upper, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.assign0(x.clone()); m.b = Some(Some(x)); }
                1 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.assign1(x.clone()); m.Upper = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s97 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with", skip), build_fn(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(name = "give0", strip_option), field(public))]
        pub z9_: ::std::option::Option<N>,
        #[builder(setter(prefix = "put"))]
        pub item: Option<Cp>,
        #[builder(setter(strip_option, prefix = "put", into), default)]
        pub r#type: Option<Cp>,
        #[builder(setter(prefix = "put", skip))]
        pub _under: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<::std::option::Option<N>>,
        pub item: Option<Option<Cp>>,
        pub r#type: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            item: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            _under: Default::default(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.item == want.item, 101);
                check(got.r#type == want.r#type, 102);
                check(got._under == want._under, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.item == m.item, 201);
        check(b.r#type == m.r#type, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.give0(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(Some(x)); }
                1 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.put_item(x.clone()); slots(&b, &m); b = nb; m.item = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.put_type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(Some(x)); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.put_type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s98 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "with", strip_option), try_setter, build_fn(error(validation_error = false)))]
    pub struct S {
        #[builder(pattern = "immutable", setter(name = "give0", strip_option), try_setter)]
        pub x1: Option<Cp>,
        #[builder(setter(name = "give1", each(name = "each1"), strip_option), try_setter, default)]
        pub __x: Option<Coll>,
        #[builder(setter(prefix = "put"))]
        pub new: Option<Cp>,
        #[builder(setter(into, prefix = "put", each(name = "each3", into), strip_option), try_setter, field(vis = "pub(super)"))]
        pub z9_: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub x1: Option<Option<Cp>>,
        pub __x: Option<Option<Coll>>,
        pub new: Option<Option<Cp>>,
        pub z9_: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            x1: Default::default(),
            __x: Default::default(),
            new: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            x1: match m.x1.clone() { Some(v) => v, None => { return Err("x1") } },
            __x: match m.__x.clone() { Some(v) => v, None => Default::default() },
            new: match m.new.clone() { Some(v) => v, None => { return Err("new") } },
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.x1 == want.x1, 100);
                check(got.__x == want.__x, 101);
                check(got.new == want.new, 102);
                check(got.z9_ == want.z9_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.x1 == m.x1, 200);
        check(b.__x == m.__x, 201);
        check(b.new == m.new, 202);
        check(b.z9_ == m.z9_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.give0(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_give0(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.give1(x.clone()); m.__x = Some(Some(x)); }
                3 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Coll = (m.__x.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                4 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.put_new(x.clone()); m.new = Some(Some(x)); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_new(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                6 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.put_z9_(x.clone()); m.z9_ = Some(Some(x)); }
                7 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.put_z9_(x.clone()); m.z9_ = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                8 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_put_z9_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                9 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.each3(x.clone()); { let c: &mut Vec<N> = (m.z9_.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s99 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into), build_fn(error(validation_error = false)), no_std, field(public))]
    pub struct S {
        #[builder(setter(into, name = "give0", strip_option), public)]
        pub new: Option<Vec<N>>,
        #[builder(pattern = "immutable", setter(into = false), default = "7")]
        pub value: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<Option<Vec<N>>>,
        pub value: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => { return Err("new") } },
            value: match m.value.clone() { Some(v) => v, None => 7 },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.value == want.value, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b.value == m.value, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.give0(x.clone()); slots(&b, &m); b = nb; m.new = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.give0(x.clone()); slots(&b, &m); b = nb; m.new = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.value(x.clone()); slots(&b, &m); b = nb; m.value = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s100 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", private)]
    pub struct S {
        #[builder(pattern = "immutable", setter(prefix = "put", strip_option))]
        pub b: ::std::option::Option<N>,
        #[builder(try_setter, default = "7")]
        pub item: u32,
        #[builder(setter(strip_option, name = "give2"), default)]
        pub wh: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<::std::option::Option<N>>,
        pub item: Option<u32>,
        pub wh: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            item: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            item: match m.item.clone() { Some(v) => v, None => 7 },
            wh: match m.wh.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.item == want.item, 101);
                check(got.wh == want.wh, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.item == m.item, 201);
        check(b.wh == m.wh, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put_b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.item(x.clone()); m.item = Some(x); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_item(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.give2(x.clone()); m.wh = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s101 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", try_setter, default, custom_constructor, build_fn(private), no_std)]
    pub struct S {
        #[builder(setter(strip_option), default = "Some(N(7))", field(public))]
        pub r#type: Option<N>,
        #[builder(setter(each(name = "each1", into)), default)]
        pub b: Vec<N>,
        #[builder(setter(name = "assign2", skip), try_setter, default)]
        pub self_: u32,
        #[builder(pattern = "mutable", setter(prefix = "put"), default = "N(7)", private)]
        pub x1: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<Option<N>>,
        pub b: Option<Vec<N>>,
        pub x1: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            b: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Some(N(7)) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            self_: Default::default(),
            x1: match m.x1.clone() { Some(v) => v, None => N(7) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.b == want.b, 101);
                check(got.self_ == want.self_, 102);
                check(got.x1 == want.x1, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.b == m.b, 201);
        check(b.x1 == m.x1, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: N = N(any_u32("v")); b = b.r#type(x.clone()); m.r#type = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_type(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                4 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.each1(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                5 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.put_x1(x.clone()); m.x1 = Some(x); }
                6 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_x1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s102 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(strip_option), default = "S { converted: Some(Cp(7)), std: Some(Cp(7)), value: Some(Cp(7)), __x: Cp(7) }", build_fn(name = "finish", error(validation_error = false)), field(public), derive(Debug))]
    pub struct S {
        #[builder(setter(into = false, strip_option), try_setter, field(private))]
        pub converted: Option<Cp>,
        #[builder(setter, field(ty = "Option<Cp>"))]
        pub std: Option<Cp>,
        #[builder(setter(strip_option = false))]
        pub value: Option<Cp>,
        #[builder(try_setter)]
        pub __x: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub converted: Option<Option<Cp>>,
        pub std: Option<Cp>,
        pub value: Option<Option<Cp>>,
        pub __x: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            converted: Default::default(),
            std: Default::default(),
            value: Default::default(),
            __x: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { converted: Some(Cp(7)), std: Some(Cp(7)), value: Some(Cp(7)), __x: Cp(7) };
        let _ = &dflt;
        Ok(S {
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
            std: m.std.clone(),
            value: match m.value.clone() { Some(v) => v, None => dflt.value.clone() },
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.converted == want.converted, 100);
                check(got.std == want.std, 101);
                check(got.value == want.value, 102);
                check(got.__x == want.__x, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.converted == m.converted, 200);
        check(b.std == m.std, 201);
        check(b.value == m.value, 202);
        check(b.__x == m.__x, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.__x = x.clone(); m.__x = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_converted(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.std(x.clone()); m.std = Some(x); }
                3 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.value(x.clone()); m.value = Some(x); }
                4 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.__x(x.clone()); m.__x = Some(x); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try___x(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s103 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", custom_constructor, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(into, name = "assign0", strip_option), try_setter)]
        pub try_it: Option<Option<N>>,
        #[builder(setter(custom))]
        pub x1: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<Option<Option<N>>>,
        pub x1: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            x1: match m.x1.clone() { Some(v) => v, None => { return Err("x1") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.x1 == want.x1, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.x1 == m.x1, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(Some(x)); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_assign0(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.try_it = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s104 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with"), try_setter, name = "Maker", build_fn(error(validation_error = false)), no_std)]
    pub struct S {
        #[builder(setter(name = "assign0", strip_option))]
        pub try_it: Option<Vec<N>>,
        #[builder(setter(custom), default = "String::from(\"lit\")")]
        pub __x: String,
        #[builder(setter(strip_option, prefix = "put", each(name = "each2", into)))]
        pub std: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<Option<Vec<N>>>,
        pub __x: Option<String>,
        pub std: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            __x: Default::default(),
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            __x: match m.__x.clone() { Some(v) => v, None => String::from("lit") },
            std: match m.std.clone() { Some(v) => v, None => { return Err("std") } },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.__x == want.__x, 101);
                check(got.std == want.std, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.__x == m.__x, 201);
        check(b.std == m.std, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: Maker = b.assign0(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(Some(x)); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_assign0(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.try_it = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: Maker = b.put_std(x.clone()); slots(&b, &m); b = nb; m.std = Some(Some(x)); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: Maker = b.each2(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = (m.std.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s105 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with", strip_option))]
    pub struct S {
        #[builder(pattern = "mutable", setter(strip_option))]
        pub value: Option<Option<N>>,
        #[builder(field(build = "self.core.unwrap_or(Cp(5))"))]
        pub core: Cp,
        #[builder(pattern = "mutable", setter(strip_option), field(build = "self.build_.unwrap_or(Cp(5))"))]
        pub build_: Cp,
        #[builder(setter(into, name = "assign3"))]
        pub _under: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub value: Option<Option<Option<N>>>,
        pub core: Option<Cp>,
        pub build_: Option<Cp>,
        pub _under: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            value: Default::default(),
            core: Default::default(),
            build_: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            value: match m.value.clone() { Some(v) => v, None => { return Err("value") } },
            core: m.core.unwrap_or(Cp(5)),
            build_: m.build_.unwrap_or(Cp(5)),
            _under: match m._under.clone() { Some(v) => v, None => { return Err("_under") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.value == want.value, 100);
                check(got.core == want.core, 101);
                check(got.build_ == want.build_, 102);
                check(got._under == want._under, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.value == m.value, 200);
        check(b.core == m.core, 201);
        check(b.build_ == m.build_, 202);
        check(b._under == m._under, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.with_value(x.clone()); m.value = Some(Some(x)); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.with_core(x.clone()); slots(&b, &m); b = nb; m.core = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.with_build_(x.clone()); m.build_ = Some(x); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.assign3(x.clone()); slots(&b, &m); b = nb; m._under = Some(x); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.assign3(x.clone()); slots(&b, &m); b = nb; m._under = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s106 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(prefix = "set"), default, build_fn(name = "finish"), private, field(public))]
    pub struct S {
        #[builder(setter(into, strip_option), try_setter, default)]
        pub f: Option<Cp>,
        #[builder(pattern = "mutable", setter(strip_option, custom))]
        pub value: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<Option<Cp>>,
        pub value: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => Default::default() },
            value: match m.value.clone() { Some(v) => v, None => dflt.value.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got.value == want.value, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b.value == m.value, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.set_f(x.clone()); m.f = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.set_f(x.clone()); m.f = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_f(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s107 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with", strip_option), try_setter, default = "S { r#type: None, new: Some(N(7)) }", custom_constructor, field(vis = "pub(crate)"), derive(Debug))]
    pub struct S {
        #[builder(setter(strip_option), default)]
        pub r#type: ::std::option::Option<N>,
        #[builder(pattern = "mutable", setter(into = false, skip))]
        pub new: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#type: None, new: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            new: dflt.new.clone(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.new == want.new, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: N = N(any_u32("v")); b = b.with_type(x.clone()); m.r#type = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_type(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s108 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(prefix = "with", strip_option = false), default, name = "Maker")]
    pub struct S {
        #[builder(setter(strip_option), default)]
        pub new: Option<Option<N>>,
        #[builder(setter(strip_option), try_setter, vis = "pub(crate)")]
        pub self_: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<Option<Option<N>>>,
        pub self_: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => Default::default() },
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.self_ == want.self_, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b.self_ == m.self_, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut Maker = b.with_new(x.clone()); m.new = Some(Some(x)); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut Maker = b.with_self_(x.clone()); m.self_ = Some(Some(x)); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_self_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s109 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(strip_option = false), build_fn(private))]
    pub struct S {
        #[builder(pattern = "owned", setter(strip_option))]
        pub default_: ::std::option::Option<N>,
        #[builder(pattern = "immutable", setter(strip_option = false, prefix = "put", skip))]
        pub __x: ::std::option::Option<N>,
        #[builder(setter, try_setter, vis = "pub(crate)")]
        pub Upper: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<::std::option::Option<N>>,
        pub Upper: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            __x: Default::default(),
            Upper: match m.Upper.clone() { Some(v) => v, None => { return Err("Upper") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.__x == want.__x, 101);
                check(got.Upper == want.Upper, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.Upper == m.Upper, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.default_(x.clone()); m.default_ = Some(Some(x)); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.Upper(x.clone()); m.Upper = Some(x); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_Upper(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s110 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(into), default = "S { item: None, new: Coll { items: [7; 6], len: 1, origin: 7 }, build_: (7, 8) }", name = "Maker", build_fn(public), private)]
    pub struct S {
        #[builder(setter(strip_option, prefix = "put"))]
        pub item: ::std::option::Option<N>,
        #[builder(pattern = "immutable", setter(prefix = "put", each(name = "each1", into)), try_setter)]
        pub new: Coll,
        pub build_: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<::std::option::Option<N>>,
        pub new: Option<Coll>,
        pub build_: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            new: Default::default(),
            build_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { item: None, new: Coll { items: [7; 6], len: 1, origin: 7 }, build_: (7, 8) };
        let _ = &dflt;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
            build_: match m.build_.clone() { Some(v) => v, None => dflt.build_.clone() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.new == want.new, 101);
                check(got.build_ == want.build_, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.new == m.new, 201);
        check(b.build_ == m.build_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut Maker = b.put_item(x.clone()); m.item = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.put_item(x.clone()); m.item = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: Maker = b.put_new(x.clone()); slots(&b, &m); b = nb; m.new = Some(x); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: Maker = b.each1(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.new, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                4 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut Maker = b.build_(x.clone()); m.build_ = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s111 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", build_fn(private))]
    pub struct S {
        #[builder(pattern = "owned", setter(strip_option))]
        pub Upper: ::std::option::Option<N>,
        #[builder(setter(into, strip_option = false, name = "assign1"), try_setter, default, private)]
        pub x1: (u8, u16),
        #[builder(pattern = "mutable", setter(skip))]
        pub __x: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub Upper: Option<::std::option::Option<N>>,
        pub x1: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            Upper: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            Upper: match m.Upper.clone() { Some(v) => v, None => { return Err("Upper") } },
            x1: match m.x1.clone() { Some(v) => v, None => Default::default() },
            __x: Default::default(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.Upper == want.Upper, 100);
                check(got.x1 == want.x1, 101);
                check(got.__x == want.__x, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.Upper == m.Upper, 200);
        check(b.x1 == m.x1, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: N = N(any_u32("v")); b = b.Upper(x.clone()); m.Upper = Some(Some(x)); }
                1 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.assign1(x.clone()); m.x1 = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s112 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { wh: Some(None), try_it: 7 }", create_empty = "blank")]
    pub struct S {
        #[builder(setter(strip_option, prefix = "put", name = "assign0"), default = "Some(None)")]
        pub wh: Option<Option<N>>,
        #[builder(setter(into, strip_option = false, prefix = "put"), field(ty = "Option<Option<Cp>>", build = "std::mem::size_of_val(&self.try_it) as u32"))]
        pub try_it: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<Option<Option<N>>>,
        pub try_it: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { wh: Some(None), try_it: 7 };
        let _ = &dflt;
        Ok(S {
            wh: match m.wh.clone() { Some(v) => v, None => Some(None) },
            try_it: std::mem::size_of_val(&m.try_it) as u32,
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.wh == want.wh, 100);
                check(got.try_it == want.try_it, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 200);
        check(b.try_it == m.try_it, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.assign0(x.clone()); m.wh = Some(Some(x)); }
                1 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; b = b.put_try_it(x.clone()); m.try_it = x; }
                2 => { let x = Some(Cp(any_u32("x"))); let xm: Option<Option<Cp>> = Some(x); let c0 = convs(); b = b.put_try_it(x.clone()); m.try_it = xm; check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s113 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", try_setter, default, name = "Maker", custom_constructor)]
    pub struct S {
        #[builder(setter(strip_option), try_setter, vis = "pub(crate)")]
        pub _under: Option<Option<N>>,
        #[builder(pattern = "immutable", setter(name = "assign1", skip), try_setter)]
        pub x1: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => dflt._under.clone() },
            x1: dflt.x1.clone(),
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.x1 == want.x1, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b._under(x.clone()); m._under = Some(Some(x)); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try__under(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s114 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), try_setter, default = "S { z9_: Some(N(8)), r#type: Some(None), value: Some(N(7)), err: N(7) }")]
    pub struct S {
        #[builder(pattern = "owned", setter(strip_option))]
        pub z9_: core::option::Option<N>,
        #[builder(setter(strip_option, name = "give1", skip), try_setter, default)]
        pub r#type: Option<Option<N>>,
        #[builder(setter(custom))]
        pub value: Option<N>,
        #[builder(setter(into = false, name = "assign3"), try_setter, field(public))]
        pub err: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<core::option::Option<N>>,
        pub value: Option<Option<N>>,
        pub err: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            value: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { z9_: Some(N(8)), r#type: Some(None), value: Some(N(7)), err: N(7) };
        let _ = &dflt;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
            r#type: Default::default(),
            value: match m.value.clone() { Some(v) => v, None => dflt.value.clone() },
            err: match m.err.clone() { Some(v) => v, None => dflt.err.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.r#type == want.r#type, 101);
                check(got.value == want.value, 102);
                check(got.err == want.err, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.value == m.value, 202);
        check(b.err == m.err, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.z9_(x.clone()); m.z9_ = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.z9_(x.clone()); m.z9_ = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_z9_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: N = N(any_u32("v")); b = b.assign3(x.clone()); m.err = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_assign3(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s115 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(skip))]
    pub struct S {
        #[builder(setter(into, name = "assign0", strip_option), field(private), vis = "pub(crate)")]
        pub item: ::std::option::Option<N>,
        #[builder(setter(into, prefix = "put", skip), default = "N(7)", private)]
        pub b: N,
        #[builder(setter(strip_option))]
        pub std: core::option::Option<N>,
        #[builder(setter(prefix = "put", name = "give3"))]
        pub err: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<::std::option::Option<N>>,
        pub std: Option<core::option::Option<N>>,
        pub err: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            std: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            b: N(7),
            std: match m.std.clone() { Some(v) => v, None => { return Err("std") } },
            err: match m.err.clone() { Some(v) => v, None => { return Err("err") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.b == want.b, 101);
                check(got.std == want.std, 102);
                check(got.err == want.err, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.std == m.std, 202);
        check(b.err == m.err, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.item = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.item = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.std(x.clone()); slots(&b, &m); b = nb; m.std = Some(Some(x)); }
                3 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.give3(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s116 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into = false), name = "Maker", build_fn(name = "finish"), private, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "immutable", setter(prefix = "put", strip_option), try_setter)]
        pub default_: core::option::Option<N>,
        #[builder(pattern = "immutable", setter(strip_option), field(build = "self.__x.unwrap_or(Cp(5))"))]
        pub __x: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<core::option::Option<N>>,
        pub __x: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            __x: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            __x: m.__x.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.__x == want.__x, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.__x == m.__x, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.__x = x.clone(); m.__x = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: Maker = b.put_default_(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_default_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: Maker = b.__x(x.clone()); slots(&b, &m); b = nb; m.__x = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s117 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with"), derive(Debug))]
    pub struct S {
        #[builder(setter(prefix = "put", strip_option))]
        pub build_with: Option<Vec<N>>,
        #[builder(pattern = "owned", setter(name = "assign1"), field(private))]
        pub Upper: Option<N>,
        #[builder(pattern = "mutable", setter(each(name = "each2")))]
        pub converted: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<Option<Vec<N>>>,
        pub Upper: Option<Option<N>>,
        pub converted: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            Upper: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => { return Err("build_with") } },
            Upper: match m.Upper.clone() { Some(v) => v, None => { return Err("Upper") } },
            converted: match m.converted.clone() { Some(v) => v, None => { return Err("converted") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.Upper == want.Upper, 101);
                check(got.converted == want.converted, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b.Upper == m.Upper, 201);
        check(b.converted == m.converted, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.put_build_with(x.clone()); m.build_with = Some(Some(x)); }
                1 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.assign1(x.clone()); m.Upper = Some(x); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.with_converted(x.clone()); m.converted = Some(x); }
                3 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.each2(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.converted, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s118 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "set", strip_option, skip = false), create_empty = "blank", private)]
    pub struct S {
        #[builder(setter(strip_option, name = "assign0"), default)]
        pub r#type: Option<Option<N>>,
        #[builder(setter(name = "give1", each = "each1", strip_option))]
        pub wh: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<Option<Option<N>>>,
        pub wh: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.wh == want.wh, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.wh == m.wh, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(Some(x)); }
                1 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.give1(x.clone()); slots(&b, &m); b = nb; m.wh = Some(Some(x)); }
                2 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.each1(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = (m.wh.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s119 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), name = "Maker", field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "immutable", setter(prefix = "put", strip_option), try_setter, default)]
        pub r#fn: Option<N>,
        #[builder(setter(name = "assign1", into))]
        pub value: u32,
        #[builder(pattern = "mutable", setter(each(name = "each2", into)))]
        pub try_it: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<Option<N>>,
        pub value: Option<u32>,
        pub try_it: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            value: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            value: match m.value.clone() { Some(v) => v, None => { return Err("value") } },
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.value == want.value, 101);
                check(got.try_it == want.try_it, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.value == m.value, 201);
        check(b.try_it == m.try_it, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: N = N(any_u32("v")); let nb: Maker = b.put_fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: Maker = b.put_fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_fn(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: u32 = any_u32("v"); b = b.assign1(x.clone()); m.value = Some(x); }
                4 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.assign1(x.clone()); m.value = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut Maker = b.try_it(x.clone()); m.try_it = Some(x); }
                6 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut Maker = b.try_it(x.clone()); m.try_it = Some(xm); check(convs() == c0 + 0, 80); }
                7 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.each2(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.try_it, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub const COUNT: usize = 120;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(2 + extra, false),
        1 => s1::run(2 + extra, false),
        2 => s2::run(2 + extra, false),
        3 => s3::run(2 + extra, false),
        4 => s4::run(2 + extra, false),
        5 => s5::run(2 + extra, false),
        6 => s6::run(2 + extra, false),
        7 => s7::run(2 + extra, false),
        8 => s8::run(2 + extra, false),
        9 => s9::run(2 + extra, false),
        10 => s10::run(2 + extra, false),
        11 => s11::run(2 + extra, false),
        12 => s12::run(2 + extra, false),
        13 => s13::run(2 + extra, false),
        14 => s14::run(2 + extra, false),
        15 => s15::run(2 + extra, false),
        16 => s16::run(2 + extra, false),
        17 => s17::run(2 + extra, false),
        18 => s18::run(2 + extra, false),
        19 => s19::run(2 + extra, false),
        20 => s20::run(2 + extra, false),
        21 => s21::run(2 + extra, false),
        22 => s22::run(2 + extra, false),
        23 => s23::run(2 + extra, false),
        24 => s24::run(2 + extra, false),
        25 => s25::run(2 + extra, false),
        26 => s26::run(2 + extra, false),
        27 => s27::run(2 + extra, false),
        28 => s28::run(2 + extra, false),
        29 => s29::run(2 + extra, false),
        30 => s30::run(2 + extra, false),
        31 => s31::run(2 + extra, false),
        32 => s32::run(2 + extra, false),
        33 => s33::run(2 + extra, false),
        34 => s34::run(2 + extra, false),
        35 => s35::run(2 + extra, false),
        36 => s36::run(2 + extra, false),
        37 => s37::run(2 + extra, false),
        38 => s38::run(2 + extra, false),
        39 => s39::run(2 + extra, false),
        40 => s40::run(2 + extra, false),
        41 => s41::run(2 + extra, false),
        42 => s42::run(2 + extra, false),
        43 => s43::run(2 + extra, false),
        44 => s44::run(2 + extra, false),
        45 => s45::run(2 + extra, false),
        46 => s46::run(2 + extra, false),
        47 => s47::run(2 + extra, false),
        48 => s48::run(2 + extra, false),
        49 => s49::run(2 + extra, false),
        50 => s50::run(2 + extra, false),
        51 => s51::run(2 + extra, false),
        52 => s52::run(2 + extra, false),
        53 => s53::run(2 + extra, false),
        54 => s54::run(2 + extra, false),
        55 => s55::run(2 + extra, false),
        56 => s56::run(2 + extra, false),
        57 => s57::run(2 + extra, false),
        58 => s58::run(2 + extra, false),
        59 => s59::run(2 + extra, false),
        60 => s60::run(2 + extra, false),
        61 => s61::run(2 + extra, false),
        62 => s62::run(2 + extra, false),
        63 => s63::run(2 + extra, false),
        64 => s64::run(2 + extra, false),
        65 => s65::run(2 + extra, false),
        66 => s66::run(2 + extra, false),
        67 => s67::run(2 + extra, false),
        68 => s68::run(2 + extra, false),
        69 => s69::run(2 + extra, false),
        70 => s70::run(2 + extra, false),
        71 => s71::run(2 + extra, false),
        72 => s72::run(2 + extra, false),
        73 => s73::run(2 + extra, false),
        74 => s74::run(2 + extra, false),
        75 => s75::run(2 + extra, false),
        76 => s76::run(2 + extra, false),
        77 => s77::run(2 + extra, false),
        78 => s78::run(2 + extra, false),
        79 => s79::run(2 + extra, false),
        80 => s80::run(2 + extra, false),
        81 => s81::run(2 + extra, false),
        82 => s82::run(2 + extra, false),
        83 => s83::run(2 + extra, false),
        84 => s84::run(2 + extra, false),
        85 => s85::run(2 + extra, false),
        86 => s86::run(2 + extra, false),
        87 => s87::run(2 + extra, false),
        88 => s88::run(2 + extra, false),
        89 => s89::run(2 + extra, false),
        90 => s90::run(2 + extra, false),
        91 => s91::run(2 + extra, false),
        92 => s92::run(2 + extra, false),
        93 => s93::run(2 + extra, false),
        94 => s94::run(2 + extra, false),
        95 => s95::run(2 + extra, false),
        96 => s96::run(2 + extra, false),
        97 => s97::run(2 + extra, false),
        98 => s98::run(2 + extra, false),
        99 => s99::run(2 + extra, false),
        100 => s100::run(2 + extra, false),
        101 => s101::run(2 + extra, false),
        102 => s102::run(2 + extra, false),
        103 => s103::run(2 + extra, false),
        104 => s104::run(2 + extra, false),
        105 => s105::run(2 + extra, false),
        106 => s106::run(2 + extra, false),
        107 => s107::run(2 + extra, false),
        108 => s108::run(2 + extra, false),
        109 => s109::run(2 + extra, false),
        110 => s110::run(2 + extra, false),
        111 => s111::run(2 + extra, false),
        112 => s112::run(2 + extra, false),
        113 => s113::run(2 + extra, false),
        114 => s114::run(2 + extra, false),
        115 => s115::run(2 + extra, false),
        116 => s116::run(2 + extra, false),
        117 => s117::run(2 + extra, false),
        118 => s118::run(2 + extra, false),
        _ => s119::run(2 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        19 => s19::run(k, true),
        20 => s20::run(k, true),
        21 => s21::run(k, true),
        22 => s22::run(k, true),
        23 => s23::run(k, true),
        24 => s24::run(k, true),
        25 => s25::run(k, true),
        26 => s26::run(k, true),
        27 => s27::run(k, true),
        28 => s28::run(k, true),
        29 => s29::run(k, true),
        30 => s30::run(k, true),
        31 => s31::run(k, true),
        32 => s32::run(k, true),
        33 => s33::run(k, true),
        34 => s34::run(k, true),
        35 => s35::run(k, true),
        36 => s36::run(k, true),
        37 => s37::run(k, true),
        38 => s38::run(k, true),
        39 => s39::run(k, true),
        40 => s40::run(k, true),
        41 => s41::run(k, true),
        42 => s42::run(k, true),
        43 => s43::run(k, true),
        44 => s44::run(k, true),
        45 => s45::run(k, true),
        46 => s46::run(k, true),
        47 => s47::run(k, true),
        48 => s48::run(k, true),
        49 => s49::run(k, true),
        50 => s50::run(k, true),
        51 => s51::run(k, true),
        52 => s52::run(k, true),
        53 => s53::run(k, true),
        54 => s54::run(k, true),
        55 => s55::run(k, true),
        56 => s56::run(k, true),
        57 => s57::run(k, true),
        58 => s58::run(k, true),
        59 => s59::run(k, true),
        60 => s60::run(k, true),
        61 => s61::run(k, true),
        62 => s62::run(k, true),
        63 => s63::run(k, true),
        64 => s64::run(k, true),
        65 => s65::run(k, true),
        66 => s66::run(k, true),
        67 => s67::run(k, true),
        68 => s68::run(k, true),
        69 => s69::run(k, true),
        70 => s70::run(k, true),
        71 => s71::run(k, true),
        72 => s72::run(k, true),
        73 => s73::run(k, true),
        74 => s74::run(k, true),
        75 => s75::run(k, true),
        76 => s76::run(k, true),
        77 => s77::run(k, true),
        78 => s78::run(k, true),
        79 => s79::run(k, true),
        80 => s80::run(k, true),
        81 => s81::run(k, true),
        82 => s82::run(k, true),
        83 => s83::run(k, true),
        84 => s84::run(k, true),
        85 => s85::run(k, true),
        86 => s86::run(k, true),
        87 => s87::run(k, true),
        88 => s88::run(k, true),
        89 => s89::run(k, true),
        90 => s90::run(k, true),
        91 => s91::run(k, true),
        92 => s92::run(k, true),
        93 => s93::run(k, true),
        94 => s94::run(k, true),
        95 => s95::run(k, true),
        96 => s96::run(k, true),
        97 => s97::run(k, true),
        98 => s98::run(k, true),
        99 => s99::run(k, true),
        100 => s100::run(k, true),
        101 => s101::run(k, true),
        102 => s102::run(k, true),
        103 => s103::run(k, true),
        104 => s104::run(k, true),
        105 => s105::run(k, true),
        106 => s106::run(k, true),
        107 => s107::run(k, true),
        108 => s108::run(k, true),
        109 => s109::run(k, true),
        110 => s110::run(k, true),
        111 => s111::run(k, true),
        112 => s112::run(k, true),
        113 => s113::run(k, true),
        114 => s114::run(k, true),
        115 => s115::run(k, true),
        116 => s116::run(k, true),
        117 => s117::run(k, true),
        118 => s118::run(k, true),
        _ => s119::run(k, true),
    }
}
