// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter, name = "Maker", create_empty = "blank", no_std, private, derive(Debug))]
    pub struct S {
        #[builder(pattern = "immutable", default)]
        pub build_with: Option<Cp>,
        #[builder(setter(name = "give1", into))]
        pub __x: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<Option<Cp>>,
        pub __x: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            __x: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => Default::default() },
            __x: match m.__x.clone() { Some(v) => v, None => { return Err("__x") } },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.__x == want.__x, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b.__x == m.__x, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.__x = x.clone(); m.__x = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: Maker = b.build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_build_with(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: Maker = b.give1(x.clone()); slots(&b, &m); b = nb; m.__x = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: Maker = b.give1(x.clone()); slots(&b, &m); b = nb; m.__x = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_give1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(prefix = "set", into), try_setter, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "mutable", setter(into), default, field(public))]
        pub r#fn: (u8, u16),
        #[builder(setter(custom), try_setter)]
        pub item: Option<N>,
        #[builder(setter(custom))]
        pub core: Option<Cp>,
        #[builder(pattern = "mutable", setter(skip), private)]
        pub _under: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<(u8, u16)>,
        pub item: Option<Option<N>>,
        pub core: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            item: Default::default(),
            core: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
            _under: Default::default(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.item == want.item, 101);
                check(got.core == want.core, 102);
                check(got._under == want._under, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.item == m.item, 201);
        check(b.core == m.core, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.set_fn(x.clone()); m.r#fn = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(into = false, strip_option = false), custom_constructor, build_fn(error(validation_error = false), private), field(public))]
    pub struct S {
        #[builder(setter(into = false, strip_option))]
        pub self_: N,
        #[builder(setter(into), field(vis = "pub(super)"))]
        pub build_with: (u8, u16),
        #[builder(try_setter)]
        pub item: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub self_: Option<N>,
        pub build_with: Option<(u8, u16)>,
        pub item: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            self_: Default::default(),
            build_with: Default::default(),
            item: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            self_: match m.self_.clone() { Some(v) => v, None => { return Err("self_") } },
            build_with: match m.build_with.clone() { Some(v) => v, None => { return Err("build_with") } },
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.self_ == want.self_, 100);
                check(got.build_with == want.build_with, 101);
                check(got.item == want.item, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.self_ == m.self_, 200);
        check(b.build_with == m.build_with, 201);
        check(b.item == m.item, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.item = x.clone(); m.item = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.self_(x.clone()); m.self_ = Some(x); }
                1 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.build_with(x.clone()); m.build_with = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.item(x.clone()); m.item = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_item(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(strip_option), try_setter, default = "S { try_it: (7, 8), std: None, a: 7 }", build_fn(private))]
    pub struct S {
        #[builder(pattern = "owned")]
        pub try_it: (u8, u16),
        #[builder(setter(strip_option = false, prefix = "put"), try_setter, default = "None")]
        pub std: ::std::option::Option<N>,
        #[builder(field(ty = "Cp", build = "self.a.0"))]
        pub a: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<(u8, u16)>,
        pub std: Option<::std::option::Option<N>>,
        pub a: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            std: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { try_it: (7, 8), std: None, a: 7 };
        let _ = &dflt;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
            std: match m.std.clone() { Some(v) => v, None => None },
            a: m.a.0,
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.std == want.std, 101);
                check(got.a == want.a, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.std == m.std, 201);
        check(b.a == m.a, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.try_it(x.clone()); m.try_it = Some(x); }
                1 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.put_std(x.clone()); slots(&b, &m); b = nb; m.std = Some(x); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_put_std(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = x; }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "set"), try_setter, name = "Maker", build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(strip_option = false), field(public))]
        pub std: Option<Cp>,
        #[builder(setter(each(name = "each1"), strip_option), field(vis = "pub(super)"))]
        pub z9_: Option<Coll>,
        #[builder(setter(strip_option = false), default)]
        pub converted: (u8, u16),
        #[builder(setter(strip_option), try_setter, default)]
        pub x1: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<Option<Cp>>,
        pub z9_: Option<Option<Coll>>,
        pub converted: Option<(u8, u16)>,
        pub x1: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            z9_: Default::default(),
            converted: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => { return Err("std") } },
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
            converted: match m.converted.clone() { Some(v) => v, None => Default::default() },
            x1: match m.x1.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.z9_ == want.z9_, 101);
                check(got.converted == want.converted, 102);
                check(got.x1 == want.x1, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.z9_ == m.z9_, 201);
        check(b.converted == m.converted, 202);
        check(b.x1 == m.x1, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut Maker = b.set_std(x.clone()); m.std = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_set_std(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut Maker = b.set_z9_(x.clone()); m.z9_ = Some(Some(x)); }
                3 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut Maker = b.each1(x.clone()); { let c: &mut Coll = (m.z9_.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                4 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut Maker = b.set_converted(x.clone()); m.converted = Some(x); }
                5 => { let x: Cp = Cp(any_u32("v")); let _: &mut Maker = b.set_x1(x.clone()); m.x1 = Some(x); }
                6 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_x1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(into), default = "S { try_it: 7, r#fn: N(7) }", custom_constructor, no_std)]
    pub struct S {
        #[builder(pattern = "immutable", default = "7")]
        pub try_it: u32,
        #[builder(pattern = "immutable", default, public)]
        pub r#fn: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<u32>,
        pub r#fn: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { try_it: 7, r#fn: N(7) };
        let _ = &dflt;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => 7 },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.r#fn == want.r#fn, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.r#fn == m.r#fn, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.r#fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(x); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.r#fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into, strip_option), try_setter, build_fn(name = "finish"))]
    pub struct S {
        #[builder(pattern = "mutable", setter(into = false, strip_option = false, name = "assign0"))]
        pub _under: (u8, u16),
        #[builder(setter(strip_option, skip = false), default)]
        pub Upper: Option<Cp>,
        #[builder(field(build = "self.z9_.unwrap_or(Cp(5))"))]
        pub z9_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<(u8, u16)>,
        pub Upper: Option<Option<Cp>>,
        pub z9_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            Upper: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => { return Err("_under") } },
            Upper: match m.Upper.clone() { Some(v) => v, None => Default::default() },
            z9_: m.z9_.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.Upper == want.Upper, 101);
                check(got.z9_ == want.z9_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.Upper == m.Upper, 201);
        check(b.z9_ == m.z9_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.assign0(x.clone()); m._under = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(Some(x)); }
                2 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.Upper(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_Upper(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.Upper = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                4 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(x); }
                5 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(xm); check(convs() == c0 + 1, 80); }
                6 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_z9_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", try_setter, default, create_empty = "blank", custom_constructor, build_fn(public), derive(Debug))]
    pub struct S {
        #[builder(pattern = "immutable", setter(into), default = "Some(N(7))", private)]
        pub r#type: Option<N>,
        #[builder(setter(into = false, strip_option), try_setter, default = "Some(vec![N(7)])", field(private), public)]
        pub __x: Option<Vec<N>>,
        #[builder(setter(strip_option = false))]
        pub build_: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<Option<N>>,
        pub __x: Option<Option<Vec<N>>>,
        pub build_: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            __x: Default::default(),
            build_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Some(N(7)) },
            __x: match m.__x.clone() { Some(v) => v, None => Some(vec![N(7)]) },
            build_: match m.build_.clone() { Some(v) => v, None => dflt.build_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.__x == want.__x, 101);
                check(got.build_ == want.build_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.__x == m.__x, 201);
        check(b.build_ == m.build_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.r#type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.r#type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_type(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.__x(x.clone()); m.__x = Some(Some(x)); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try___x(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.build_(x.clone()); m.build_ = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(into, strip_option), try_setter, create_empty = "blank", build_fn(name = "finish", error(validation_error = false)), private)]
    pub struct S {
        #[builder(try_setter, private)]
        pub self_: u32,
        #[builder(pattern = "mutable", setter(prefix = "put", into))]
        pub wh: Option<N>,
        #[builder(setter(strip_option, name = "give2", each(name = "each2")), try_setter)]
        pub b: Option<Coll>,
        #[builder(setter(into, strip_option, prefix = "put"), try_setter)]
        pub item: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub self_: Option<u32>,
        pub wh: Option<Option<N>>,
        pub b: Option<Option<Coll>>,
        pub item: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            self_: Default::default(),
            wh: Default::default(),
            b: Default::default(),
            item: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            self_: match m.self_.clone() { Some(v) => v, None => { return Err("self_") } },
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.self_ == want.self_, 100);
                check(got.wh == want.wh, 101);
                check(got.b == want.b, 102);
                check(got.item == want.item, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.self_ == m.self_, 200);
        check(b.wh == m.wh, 201);
        check(b.b == m.b, 202);
        check(b.item == m.item, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.item = x.clone(); m.item = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 12) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.self_(x.clone()); m.self_ = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut SBuilder = b.self_(x.clone()); m.self_ = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_self_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.put_wh(x.clone()); m.wh = Some(Some(x)); }
                4 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.put_wh(x.clone()); m.wh = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_wh(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                6 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.give2(x.clone()); m.b = Some(Some(x)); }
                7 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let _: &mut SBuilder = b.each2(x.clone()); { let c: &mut Coll = (m.b.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                8 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.put_item(x.clone()); m.item = Some(x); }
                9 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.put_item(x.clone()); m.item = Some(xm); check(convs() == c0 + 0, 80); }
                10 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_put_item(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(prefix = "set", into, strip_option = false), default, custom_constructor, build_fn(name = "finish", vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(into = false, name = "assign0"))]
        pub core: ::std::option::Option<N>,
        #[builder(setter(each(name = "each1", into), strip_option), try_setter)]
        pub result: Option<Vec<N>>,
        #[builder(setter(strip_option = false, name = "assign2"))]
        pub z9_: ::std::option::Option<N>,
        #[builder(default = "vec![N(7)]")]
        pub x1: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<::std::option::Option<N>>,
        pub result: Option<Option<Vec<N>>>,
        pub z9_: Option<::std::option::Option<N>>,
        pub x1: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            result: Default::default(),
            z9_: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => dflt.core.clone() },
            result: match m.result.clone() { Some(v) => v, None => dflt.result.clone() },
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
            x1: match m.x1.clone() { Some(v) => v, None => vec![N(7)] },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.result == want.result, 101);
                check(got.z9_ == want.z9_, 102);
                check(got.x1 == want.x1, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.result == m.result, 201);
        check(b.z9_ == m.z9_, 202);
        check(b.x1 == m.x1, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 10) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.assign0(x.clone()); m.core = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.set_result(x.clone()); m.result = Some(Some(x)); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.set_result(x.clone()); m.result = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_set_result(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Vec<N> = (m.result.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                5 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.assign2(x.clone()); m.z9_ = Some(x); }
                6 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.assign2(x.clone()); m.z9_ = Some(xm); check(convs() == c0 + 0, 80); }
                7 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.set_x1(x.clone()); m.x1 = Some(x); }
                8 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.set_x1(x.clone()); m.x1 = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(name = "Maker", build_fn(name = "finish"))]
    pub struct S {
        #[builder(pattern = "mutable", default = "Cp(7)", private)]
        pub r#fn: Cp,
        #[builder(setter(name = "give1"))]
        pub build_: N,
        #[builder(setter(custom), default)]
        pub result: u32,
        #[builder(setter(skip))]
        pub new: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<Cp>,
        pub build_: Option<N>,
        pub result: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            build_: Default::default(),
            result: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Cp(7) },
            build_: match m.build_.clone() { Some(v) => v, None => { return Err("build_") } },
            result: match m.result.clone() { Some(v) => v, None => Default::default() },
            new: Default::default(),
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.build_ == want.build_, 101);
                check(got.result == want.result, 102);
                check(got.new == want.new, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.build_ == m.build_, 201);
        check(b.result == m.result, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.result = x.clone(); m.result = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut Maker = b.r#fn(x.clone()); m.r#fn = Some(x); }
                1 => { let x: N = N(any_u32("v")); let _: &mut Maker = b.give1(x.clone()); m.build_ = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(try_setter, default, build_fn(name = "finish"), field(public))]
    pub struct S {
        #[builder(setter(name = "give0"), default)]
        pub b: Option<Cp>,
        #[builder(pattern = "mutable", setter(name = "assign1"), default)]
        pub r#fn: Option<Cp>,
        #[builder(setter(into, strip_option, prefix = "put"), vis = "pub(crate)")]
        pub item: Option<N>,
        #[builder(setter(into = false, prefix = "put", name = "give3", skip = false))]
        pub converted: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Option<Cp>>,
        pub r#fn: Option<Option<Cp>>,
        pub item: Option<Option<N>>,
        pub converted: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            r#fn: Default::default(),
            item: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.r#fn == want.r#fn, 101);
                check(got.item == want.item, 102);
                check(got.converted == want.converted, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.r#fn == m.r#fn, 201);
        check(b.item == m.item, 202);
        check(b.converted == m.converted, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.give0(x.clone()); m.b = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_give0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.assign1(x.clone()); m.r#fn = Some(x); }
                3 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_assign1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.put_item(x.clone()); m.item = Some(Some(x)); }
                5 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.put_item(x.clone()); m.item = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                6 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_item(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                7 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.give3(x.clone()); m.converted = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(prefix = "with"), default = "S { __x: Some(None), r#fn: Some(vec![N(7)]), _under: N(7) }", build_fn(name = "finish"), derive(Debug))]
    pub struct S {
        #[builder(setter, vis = "pub(crate)")]
        pub __x: Option<Option<N>>,
        #[builder(pattern = "mutable", setter(each = "each1", strip_option), default)]
        pub r#fn: Option<Vec<N>>,
        #[builder(pattern = "mutable", setter(name = "give2"), default, field(private), vis = "pub(crate)")]
        pub _under: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<Option<Option<N>>>,
        pub r#fn: Option<Option<Vec<N>>>,
        pub _under: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            r#fn: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { __x: Some(None), r#fn: Some(vec![N(7)]), _under: N(7) };
        let _ = &dflt;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            _under: match m._under.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.r#fn == want.r#fn, 101);
                check(got._under == want._under, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.r#fn == m.r#fn, 201);
        check(b._under == m._under, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut SBuilder = b.with___x(x.clone()); m.__x = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.with_fn(x.clone()); m.r#fn = Some(Some(x)); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Vec<N> = (m.r#fn.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                3 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.give2(x.clone()); m._under = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into), default = "S { item: vec![N(7)], x1: 7, z9_: Some(N(7)), wh: Cp(7) }", build_fn(name = "finish"))]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub item: Vec<N>,
        #[builder(setter(name = "assign1"), try_setter, default)]
        pub x1: u32,
        #[builder(pattern = "immutable", setter(into))]
        pub z9_: Option<N>,
        #[builder(setter(strip_option = false, prefix = "put"), try_setter)]
        pub wh: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<Vec<N>>,
        pub x1: Option<u32>,
        pub z9_: Option<Option<N>>,
        pub wh: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            x1: Default::default(),
            z9_: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { item: vec![N(7)], x1: 7, z9_: Some(N(7)), wh: Cp(7) };
        let _ = &dflt;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
            x1: match m.x1.clone() { Some(v) => v, None => Default::default() },
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
            wh: match m.wh.clone() { Some(v) => v, None => dflt.wh.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.x1 == want.x1, 101);
                check(got.z9_ == want.z9_, 102);
                check(got.wh == want.wh, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.x1 == m.x1, 201);
        check(b.z9_ == m.z9_, 202);
        check(b.wh == m.wh, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; m.item = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; m.item = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.assign1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(x); }
                3 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.assign1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_assign1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(x); }
                6 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(xm); check(convs() == c0 + 0, 80); }
                7 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.put_wh(x.clone()); slots(&b, &m); b = nb; m.wh = Some(x); }
                8 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.put_wh(x.clone()); slots(&b, &m); b = nb; m.wh = Some(xm); check(convs() == c0 + 1, 80); }
                9 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_wh(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(setter(skip), default, create_empty = "blank")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub core: Cp,
        #[builder(pattern = "mutable", setter(strip_option))]
        pub std: Option<Cp>,
        #[builder(setter(prefix = "put", strip_option), private)]
        pub build_with: Option<Cp>,
        #[builder(setter(into))]
        pub default_: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<Option<Cp>>,
        pub build_with: Option<Option<Cp>>,
        pub default_: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            build_with: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            core: dflt.core.clone(),
            std: match m.std.clone() { Some(v) => v, None => dflt.std.clone() },
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.std == want.std, 101);
                check(got.build_with == want.build_with, 102);
                check(got.default_ == want.default_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 201);
        check(b.build_with == m.build_with, 202);
        check(b.default_ == m.default_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.std(x.clone()); m.std = Some(Some(x)); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.put_build_with(x.clone()); m.build_with = Some(Some(x)); }
                2 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.default_(x.clone()); m.default_ = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.default_(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(into, skip = false), build_fn(name = "finish", private), no_std)]
    pub struct S {
        #[builder(setter(strip_option), try_setter, default = "(7, 8)")]
        pub Upper: (u8, u16),
        #[builder(pattern = "owned", setter(into, prefix = "put"), try_setter, default = "Cp(7)")]
        pub a: Cp,
        pub converted: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub Upper: Option<(u8, u16)>,
        pub a: Option<Cp>,
        pub converted: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            Upper: Default::default(),
            a: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            Upper: match m.Upper.clone() { Some(v) => v, None => (7, 8) },
            a: match m.a.clone() { Some(v) => v, None => Cp(7) },
            converted: match m.converted.clone() { Some(v) => v, None => { return Err("converted") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.Upper == want.Upper, 100);
                check(got.a == want.a, 101);
                check(got.converted == want.converted, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.Upper == m.Upper, 200);
        check(b.a == m.a, 201);
        check(b.converted == m.converted, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.Upper(x.clone()); m.Upper = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.put_a(x.clone()); m.a = Some(x); }
                2 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.put_a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                4 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(x); }
                5 => { let x = if flag("x") { "ab" } else { "" }; let xm: String = String::from(x); let c0 = convs(); let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(default, build_fn(error(validation_error = false), public), private)]
    pub struct S {
        #[builder(setter)]
        pub try_it: (u8, u16),
        #[builder(setter(into = false, each = "each1"), try_setter, default = "vec![N(7)]")]
        pub build_with: Vec<N>,
        #[builder(pattern = "owned", setter(prefix = "put", name = "assign2", each(name = "each2"), strip_option), default)]
        pub a: Option<Coll>,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<(u8, u16)>,
        pub build_with: Option<Vec<N>>,
        pub a: Option<Option<Coll>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            build_with: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
            build_with: match m.build_with.clone() { Some(v) => v, None => vec![N(7)] },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.build_with == want.build_with, 101);
                check(got.a == want.a, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.build_with == m.build_with, 201);
        check(b.a == m.a, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Option<Coll>> = if flag("set") { Some(if flag("some") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.try_it(x.clone()); m.try_it = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.build_with(x.clone()); m.build_with = Some(x); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_build_with(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.build_with, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                4 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.assign2(x.clone()); m.a = Some(Some(x)); }
                5 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Coll = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(strip_option = false), default = "S { a: vec![N(7)], __x: N(7), default_: Some(N(8)), wh: Some(Cp(7)) }", create_empty = "blank", build_fn(error(validation_error = false), vis = "pub(crate)"), field(vis = "pub(crate)"))]
    pub struct S {
        pub a: Vec<N>,
        #[builder(setter, try_setter)]
        pub __x: N,
        #[builder(pattern = "mutable", setter(name = "give2", strip_option), private)]
        pub default_: core::option::Option<N>,
        #[builder(setter(prefix = "put", custom), default)]
        pub wh: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub __x: Option<N>,
        pub default_: Option<core::option::Option<N>>,
        pub wh: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            __x: Default::default(),
            default_: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: vec![N(7)], __x: N(7), default_: Some(N(8)), wh: Some(Cp(7)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            __x: match m.__x.clone() { Some(v) => v, None => dflt.__x.clone() },
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
            wh: match m.wh.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.__x == want.__x, 101);
                check(got.default_ == want.default_, 102);
                check(got.wh == want.wh, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.__x == m.__x, 201);
        check(b.default_ == m.default_, 202);
        check(b.wh == m.wh, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.__x(x.clone()); slots(&b, &m); b = nb; m.__x = Some(x); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try___x(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.give2(x.clone()); m.default_ = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        #[builder(try_setter, default)]
        pub err: ::std::option::Option<N>,
        #[builder(pattern = "immutable", setter(prefix = "put"), field(public))]
        pub default_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<::std::option::Option<N>>,
        pub default_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.default_ == want.default_, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.default_ == m.default_, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.err(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_err(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.put_default_(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(strip_option), default = "S { z9_: None, f: Cp(7), Upper: Some(N(7)) }", build_fn(error(validation_error = false)), no_std, private)]
    pub struct S {
        #[builder(setter(into))]
        pub z9_: ::std::option::Option<N>,
        #[builder(pattern = "owned", setter(into, custom))]
        pub f: Cp,
        #[builder(setter(strip_option = false, name = "give2"))]
        pub Upper: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<::std::option::Option<N>>,
        pub f: Option<Cp>,
        pub Upper: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            f: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { z9_: None, f: Cp(7), Upper: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
            Upper: match m.Upper.clone() { Some(v) => v, None => dflt.Upper.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.f == want.f, 101);
                check(got.Upper == want.Upper, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.f == m.f, 201);
        check(b.Upper == m.Upper, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.z9_(x.clone()); slots(&b, &m); b = nb; m.z9_ = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.give2(x.clone()); slots(&b, &m); b = nb; m.Upper = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s20 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "with"), try_setter, name = "Maker", private)]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: (u8, u16),
        #[builder(setter(into = false))]
        pub z9_: u32,
        #[builder(setter(into, custom = false), default, field(private))]
        pub converted: Vec<N>,
        pub wh: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<(u8, u16)>,
        pub z9_: Option<u32>,
        pub converted: Option<Vec<N>>,
        pub wh: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            z9_: Default::default(),
            converted: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            z9_: match m.z9_.clone() { Some(v) => v, None => { return Err("z9_") } },
            converted: match m.converted.clone() { Some(v) => v, None => Default::default() },
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.z9_ == want.z9_, 101);
                check(got.converted == want.converted, 102);
                check(got.wh == want.wh, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.z9_ == m.z9_, 201);
        check(b.converted == m.converted, 202);
        check(b.wh == m.wh, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: Maker = b.with_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut Maker = b.with_z9_(x.clone()); m.z9_ = Some(x); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_with_z9_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut Maker = b.with_converted(x.clone()); m.converted = Some(x); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut Maker = b.with_converted(x.clone()); m.converted = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_with_converted(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                6 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut Maker = b.with_wh(x.clone()); m.wh = Some(x); }
                7 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_with_wh(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub const COUNT: usize = 21;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(2 + extra, false),
        1 => s1::run(2 + extra, false),
        2 => s2::run(2 + extra, false),
        3 => s3::run(2 + extra, false),
        4 => s4::run(2 + extra, false),
        5 => s5::run(2 + extra, false),
        6 => s6::run(2 + extra, false),
        7 => s7::run(2 + extra, false),
        8 => s8::run(2 + extra, false),
        9 => s9::run(2 + extra, false),
        10 => s10::run(2 + extra, false),
        11 => s11::run(2 + extra, false),
        12 => s12::run(2 + extra, false),
        13 => s13::run(2 + extra, false),
        14 => s14::run(2 + extra, false),
        15 => s15::run(2 + extra, false),
        16 => s16::run(2 + extra, false),
        17 => s17::run(2 + extra, false),
        18 => s18::run(2 + extra, false),
        19 => s19::run(2 + extra, false),
        _ => s20::run(2 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        19 => s19::run(k, true),
        _ => s20::run(k, true),
    }
}
