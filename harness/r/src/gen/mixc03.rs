// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(skip = false), try_setter, default = "S { std: Cp(7), x1: Some(Cp(7)), value: vec![N(7)] }", build_fn(name = "finish"), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(prefix = "put"), default)]
        pub std: Cp,
        #[builder(setter(into, strip_option), try_setter, default)]
        pub x1: Option<Cp>,
        #[builder(pattern = "mutable", setter(each(name = "each2")))]
        pub value: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<Cp>,
        pub x1: Option<Option<Cp>>,
        pub value: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            x1: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { std: Cp(7), x1: Some(Cp(7)), value: vec![N(7)] };
        let _ = &dflt;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => Default::default() },
            x1: match m.x1.clone() { Some(v) => v, None => Default::default() },
            value: match m.value.clone() { Some(v) => v, None => dflt.value.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.x1 == want.x1, 101);
                check(got.value == want.value, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.x1 == m.x1, 201);
        check(b.value == m.value, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.put_std(x.clone()); slots(&b, &m); b = nb; m.std = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_std(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(Some(x)); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_x1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.value(x.clone()); m.value = Some(x); }
                6 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_value(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.value = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                7 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.each2(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.value, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into, strip_option))]
    pub struct S {
        #[builder(default = "Some(N(7))", vis = "pub(crate)")]
        pub build_with: Option<N>,
        #[builder(try_setter, default)]
        pub r#fn: ::std::option::Option<N>,
        #[builder(setter(into), default = "Some(Cp(7))")]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<Option<N>>,
        pub r#fn: Option<::std::option::Option<N>>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            r#fn: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => Some(N(7)) },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Some(Cp(7)) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.r#fn == want.r#fn, 101);
                check(got.b == want.b, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b.r#fn == m.r#fn, 201);
        check(b.b == m.b, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.build_with(x.clone()); slots(&b, &m); b = nb; m.build_with = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.r#fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(Some(x)); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.r#fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_fn(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                6 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(strip_option), try_setter, default, create_empty = "blank", custom_constructor, build_fn(error(validation_error = false)))]
    pub struct S {
        #[builder(pattern = "mutable", setter(strip_option = false, prefix = "put"), default = "N(7)")]
        pub std: N,
        #[builder(setter(name = "give1", into), default)]
        pub r#type: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<N>,
        pub r#type: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            r#type: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => N(7) },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.r#type == want.r#type, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.r#type == m.r#type, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.put_std(x.clone()); m.std = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_std(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.give1(x.clone()); m.r#type = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(prefix = "with"), default = "S { _under: 7, a: Some(vec![N(7)]), r#fn: vec![N(7)], result: Cp(7) }", name = "Maker", build_fn(name = "finish"), no_std, field(public))]
    pub struct S {
        #[builder(setter, default = "7")]
        pub _under: u32,
        #[builder(setter(prefix = "put", each(name = "each1", into), strip_option), try_setter, field(vis = "pub(super)"))]
        pub a: Option<Vec<N>>,
        #[builder(pattern = "mutable", default)]
        pub r#fn: Vec<N>,
        #[builder(setter(prefix = "put", skip))]
        pub result: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<u32>,
        pub a: Option<Option<Vec<N>>>,
        pub r#fn: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            a: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { _under: 7, a: Some(vec![N(7)]), r#fn: vec![N(7)], result: Cp(7) };
        let _ = &dflt;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => 7 },
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            result: dflt.result.clone(),
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.a == want.a, 101);
                check(got.r#fn == want.r#fn, 102);
                check(got.result == want.result, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.a == m.a, 201);
        check(b.r#fn == m.r#fn, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); let _: &mut Maker = b.with__under(x.clone()); m._under = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut Maker = b.put_a(x.clone()); m.a = Some(Some(x)); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_put_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.each1(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                4 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut Maker = b.with_fn(x.clone()); m.r#fn = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "set"), create_empty = "blank", build_fn(error(validation_error = false)), no_std)]
    pub struct S {
        #[builder(setter(name = "assign0"), try_setter, default)]
        pub build_: Option<N>,
        pub x1: Option<Cp>,
        #[builder(setter(prefix = "put", strip_option), try_setter, public)]
        pub wh: core::option::Option<N>,
        #[builder(setter(prefix = "put", name = "give3"), default = "String::from(\"lit\")")]
        pub _under: String,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_: Option<Option<N>>,
        pub x1: Option<Option<Cp>>,
        pub wh: Option<core::option::Option<N>>,
        pub _under: Option<String>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_: Default::default(),
            x1: Default::default(),
            wh: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            build_: match m.build_.clone() { Some(v) => v, None => Default::default() },
            x1: match m.x1.clone() { Some(v) => v, None => { return Err("x1") } },
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
            _under: match m._under.clone() { Some(v) => v, None => String::from("lit") },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_ == want.build_, 100);
                check(got.x1 == want.x1, 101);
                check(got.wh == want.wh, 102);
                check(got._under == want._under, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_ == m.build_, 200);
        check(b.x1 == m.x1, 201);
        check(b.wh == m.wh, 202);
        check(b._under == m._under, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.assign0(x.clone()); m.build_ = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_assign0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.set_x1(x.clone()); m.x1 = Some(x); }
                3 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.put_wh(x.clone()); m.wh = Some(Some(x)); }
                4 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_wh(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.give3(x.clone()); m._under = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "set"), default)]
    pub struct S {
        #[builder(pattern = "immutable", setter(into), default)]
        pub std: ::std::option::Option<N>,
        #[builder(setter(name = "assign1"), try_setter)]
        pub a: String,
        #[builder(pattern = "owned", setter(prefix = "put", each(name = "each2", into)), try_setter)]
        pub b: Vec<N>,
        #[builder(setter(name = "give3", custom), default, field(private))]
        pub f: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<::std::option::Option<N>>,
        pub a: Option<String>,
        pub b: Option<Vec<N>>,
        pub f: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            a: Default::default(),
            b: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => Default::default() },
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            f: match m.f.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.a == want.a, 101);
                check(got.b == want.b, 102);
                check(got.f == want.f, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.a == m.a, 201);
        check(b.b == m.b, 202);
        check(b.f == m.f, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.set_std(x.clone()); slots(&b, &m); b = nb; m.std = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.set_std(x.clone()); slots(&b, &m); b = nb; m.std = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); b = b.assign1(x.clone()); m.a = Some(x); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.put_b(x.clone()); m.b = Some(x); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_put_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                5 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter, default = "S { item: None, err: (7, 8), new: Some(None) }", build_fn(error(validation_error = false)), private)]
    pub struct S {
        #[builder(default = "None")]
        pub item: ::std::option::Option<N>,
        #[builder(default = "(7, 8)", field(vis = "pub(super)"))]
        pub err: (u8, u16),
        #[builder(pattern = "immutable", setter(into, name = "assign2", skip), try_setter, field(vis = "pub(super)"))]
        pub new: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub item: Option<::std::option::Option<N>>,
        pub err: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            item: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { item: None, err: (7, 8), new: Some(None) };
        let _ = &dflt;
        Ok(S {
            item: match m.item.clone() { Some(v) => v, None => None },
            err: match m.err.clone() { Some(v) => v, None => (7, 8) },
            new: dflt.new.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.item == want.item, 100);
                check(got.err == want.err, 101);
                check(got.new == want.new, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.item == m.item, 200);
        check(b.err == m.err, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; m.item = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_item(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: SBuilder = b.err(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(into, strip_option), build_fn(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(name = "assign0"), default)]
        pub std: (u8, u16),
        #[builder(setter(prefix = "put"), field(ty = "Option<Cp>", build = "std::mem::size_of_val(&self.f) as u32"))]
        pub f: u32,
        #[builder(field(build = "self.try_it.unwrap_or(Cp(5))", private))]
        pub try_it: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<(u8, u16)>,
        pub f: Option<Cp>,
        pub try_it: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            f: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => Default::default() },
            f: std::mem::size_of_val(&m.f) as u32,
            try_it: m.try_it.unwrap_or(Cp(5)),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.f == want.f, 101);
                check(got.try_it == want.try_it, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.f == m.f, 201);
        check(b.try_it == m.try_it, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.assign0(x.clone()); m.std = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.put_f(x.clone()); m.f = Some(x); }
                2 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.put_f(x.clone()); m.f = Some(xm); check(convs() == c0 + 1, 80); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.try_it(x.clone()); m.try_it = Some(x); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.try_it(x.clone()); m.try_it = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(strip_option), try_setter, default, private, derive(Debug))]
    pub struct S {
        #[builder(pattern = "mutable", setter, default, field(private))]
        pub b: N,
        #[builder(setter(name = "assign1", each(name = "each1", into), strip_option), try_setter, default = "Some(vec![N(7)])")]
        pub x1: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<N>,
        pub x1: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            x1: match m.x1.clone() { Some(v) => v, None => Some(vec![N(7)]) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.x1 == want.x1, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.x1 == m.x1, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.assign1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(Some(x)); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_assign1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.each1(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.x1.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(into), default, create_empty = "blank", custom_constructor, build_fn(name = "finish"), derive(Debug))]
    pub struct S {
        #[builder(default, private)]
        pub z9_: Option<Option<N>>,
        #[builder(setter(prefix = "put", custom = false), field(public))]
        pub new: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<Option<Option<N>>>,
        pub new: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => Default::default() },
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.new == want.new, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.new == m.new, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.z9_(x.clone()); m.z9_ = Some(x); }
                1 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.z9_(x.clone()); m.z9_ = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.put_new(x.clone()); m.new = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.put_new(x.clone()); m.new = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option = false), build_fn(error(validation_error = false), private))]
    pub struct S {
        #[builder(pattern = "owned", setter(into = false), default, field(vis = "pub(super)"))]
        pub result: Cp,
        #[builder(pattern = "owned", setter(skip), try_setter)]
        pub core: ::std::option::Option<N>,
        #[builder(setter(into, name = "assign2"), try_setter)]
        pub item: Option<Cp>,
        #[builder(setter(each(name = "each3", into)), try_setter)]
        pub Upper: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub result: Option<Cp>,
        pub item: Option<Option<Cp>>,
        pub Upper: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            result: Default::default(),
            item: Default::default(),
            Upper: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            result: match m.result.clone() { Some(v) => v, None => Default::default() },
            core: Default::default(),
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            Upper: match m.Upper.clone() { Some(v) => v, None => { return Err("Upper") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.result == want.result, 100);
                check(got.core == want.core, 101);
                check(got.item == want.item, 102);
                check(got.Upper == want.Upper, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.result == m.result, 200);
        check(b.item == m.item, 202);
        check(b.Upper == m.Upper, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.result(x.clone()); m.result = Some(x); }
                1 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.assign2(x.clone()); m.item = Some(x); }
                2 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.assign2(x.clone()); m.item = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_assign2(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                4 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.Upper(x.clone()); m.Upper = Some(x); }
                5 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.each3(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.Upper, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(strip_option = false), default = "S { try_it: N(7), x1: 7, value: Cp(7) }", custom_constructor, build_fn(private))]
    pub struct S {
        #[builder(try_setter, default)]
        pub try_it: N,
        #[builder(try_setter)]
        pub x1: u32,
        #[builder(pattern = "immutable", setter(strip_option = false, name = "give2"), default)]
        pub value: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub try_it: Option<N>,
        pub x1: Option<u32>,
        pub value: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            try_it: Default::default(),
            x1: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { try_it: N(7), x1: 7, value: Cp(7) };
        let _ = &dflt;
        Ok(S {
            try_it: match m.try_it.clone() { Some(v) => v, None => Default::default() },
            x1: match m.x1.clone() { Some(v) => v, None => dflt.x1.clone() },
            value: match m.value.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.try_it == want.try_it, 100);
                check(got.x1 == want.x1, 101);
                check(got.value == want.value, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.try_it == m.try_it, 200);
        check(b.x1 == m.x1, 201);
        check(b.value == m.value, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.try_it(x.clone()); m.try_it = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_try_it(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.try_it = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); b = b.x1(x.clone()); m.x1 = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_x1(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                4 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.give2(x.clone()); slots(&b, &m); b = nb; m.value = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "set", strip_option), try_setter, build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(strip_option), try_setter, default)]
        pub a: u32,
        #[builder(field(ty = "Option<Option<Cp>>", build = "std::mem::size_of_val(&self.b) as u32"))]
        pub b: u32,
        #[builder(pattern = "immutable", setter(prefix = "put"), default = "Some(Cp(7))")]
        pub _under: Option<Cp>,
        #[builder(setter(name = "give3"), try_setter, default)]
        pub __x: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Option<Cp>>,
        pub _under: Option<Option<Cp>>,
        pub __x: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            _under: Default::default(),
            __x: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            b: std::mem::size_of_val(&m.b) as u32,
            _under: match m._under.clone() { Some(v) => v, None => Some(Cp(7)) },
            __x: match m.__x.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got._under == want._under, 102);
                check(got.__x == want.__x, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b._under == m._under, 202);
        check(b.__x == m.__x, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.__x = x.clone(); m.__x = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.set_a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_set_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.set_b(x.clone()); m.b = Some(x); }
                3 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_set_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.put__under(x.clone()); slots(&b, &m); b = nb; m._under = Some(Some(x)); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put__under(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                6 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.give3(x.clone()); m.__x = Some(x); }
                7 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_give3(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter, default = "S { x1: None, self_: Some(N(7)), err: Cp(7), default_: Some(Cp(7)) }")]
    pub struct S {
        #[builder(setter(into), default, field(vis = "pub(super)"))]
        pub x1: ::std::option::Option<N>,
        #[builder(setter(strip_option), try_setter)]
        pub self_: Option<N>,
        #[builder(setter(strip_option, name = "assign2"), field(build = "self.err.unwrap_or(Cp(5))"))]
        pub err: Cp,
        #[builder(pattern = "mutable", setter(strip_option, prefix = "put"), try_setter)]
        pub default_: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub x1: Option<::std::option::Option<N>>,
        pub self_: Option<Option<N>>,
        pub err: Option<Cp>,
        pub default_: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            x1: Default::default(),
            self_: Default::default(),
            err: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { x1: None, self_: Some(N(7)), err: Cp(7), default_: Some(Cp(7)) };
        let _ = &dflt;
        Ok(S {
            x1: match m.x1.clone() { Some(v) => v, None => Default::default() },
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
            err: m.err.unwrap_or(Cp(5)),
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.x1 == want.x1, 100);
                check(got.self_ == want.self_, 101);
                check(got.err == want.err, 102);
                check(got.default_ == want.default_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.x1 == m.x1, 200);
        check(b.self_ == m.self_, 201);
        check(b.err == m.err, 202);
        check(b.default_ == m.default_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 10) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.x1(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_x1(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.self_(x.clone()); slots(&b, &m); b = nb; m.self_ = Some(Some(x)); }
                4 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_self_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.assign2(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                6 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_assign2(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.err = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                7 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.put_default_(x.clone()); m.default_ = Some(Some(x)); }
                8 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_default_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", create_empty = "blank", custom_constructor, field(public), derive(Debug))]
    pub struct S {
        #[builder(setter(name = "give0"), try_setter, default)]
        pub build_with: Option<Cp>,
        #[builder(try_setter, field(vis = "pub(super)"))]
        pub core: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_with: Option<Option<Cp>>,
        pub core: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_with: Default::default(),
            core: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            build_with: match m.build_with.clone() { Some(v) => v, None => Default::default() },
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_with == want.build_with, 100);
                check(got.core == want.core, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_with == m.build_with, 200);
        check(b.core == m.core, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.core = x.clone(); m.core = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.give0(x.clone()); m.build_with = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_give0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_with = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.core(x.clone()); m.core = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_core(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.core = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), try_setter, build_fn(error(validation_error = false)), no_std)]
    pub struct S {
        #[builder(pattern = "owned", setter(prefix = "put"), default)]
        pub b: Option<Cp>,
        #[builder(pattern = "mutable", setter(custom), try_setter, field(private))]
        pub __x: Cp,
        #[builder(setter)]
        pub new: Option<Option<N>>,
        #[builder(setter(name = "give3"), try_setter, default = "N(7)", field(vis = "pub(super)"))]
        pub a: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Option<Cp>>,
        pub __x: Option<Cp>,
        pub new: Option<Option<Option<N>>>,
        pub a: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            __x: Default::default(),
            new: Default::default(),
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            __x: match m.__x.clone() { Some(v) => v, None => { return Err("__x") } },
            new: match m.new.clone() { Some(v) => v, None => { return Err("new") } },
            a: match m.a.clone() { Some(v) => v, None => N(7) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.__x == want.__x, 101);
                check(got.new == want.new, 102);
                check(got.a == want.a, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.__x == m.__x, 201);
        check(b.new == m.new, 202);
        check(b.a == m.a, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.put_b(x.clone()); m.b = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.put_b(x.clone()); m.b = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_put_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.new(x.clone()); m.new = Some(x); }
                4 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.new(x.clone()); m.new = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x: N = N(any_u32("v")); b = b.give3(x.clone()); m.a = Some(x); }
                6 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.give3(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                7 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_give3(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(prefix = "with", strip_option), default = "S { _under: Cp(7), build_with: Cp(7), b: Cp(7), std: Cp(7) }")]
    pub struct S {
        #[builder(pattern = "immutable", setter(strip_option), default = "Cp(7)")]
        pub _under: Cp,
        #[builder(private)]
        pub build_with: Cp,
        #[builder(pattern = "mutable", setter(strip_option), field(build = "self.b.unwrap_or(Cp(5))", vis = "pub(super)"))]
        pub b: Cp,
        #[builder(pattern = "mutable", setter(strip_option = false, custom))]
        pub std: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<Cp>,
        pub build_with: Option<Cp>,
        pub b: Option<Cp>,
        pub std: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            build_with: Default::default(),
            b: Default::default(),
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { _under: Cp(7), build_with: Cp(7), b: Cp(7), std: Cp(7) };
        let _ = &dflt;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => Cp(7) },
            build_with: match m.build_with.clone() { Some(v) => v, None => dflt.build_with.clone() },
            b: m.b.unwrap_or(Cp(5)),
            std: match m.std.clone() { Some(v) => v, None => dflt.std.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.build_with == want.build_with, 101);
                check(got.b == want.b, 102);
                check(got.std == want.std, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.build_with == m.build_with, 201);
        check(b.b == m.b, 202);
        check(b.std == m.std, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.build_with = x.clone(); m.build_with = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.with__under(x.clone()); slots(&b, &m); b = nb; m._under = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.with_build_with(x.clone()); m.build_with = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.with_b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option, skip), custom_constructor, build_fn(vis = "pub(crate)"), field(public))]
    pub struct S {
        #[builder(pattern = "mutable", setter(prefix = "put", name = "give0"), try_setter, default)]
        pub self_: u32,
        #[builder(setter(prefix = "put"))]
        pub b: u32,
        #[builder(setter(custom))]
        pub _under: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub self_: Option<u32>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            self_: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            self_: match m.self_.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            _under: Default::default(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.self_ == want.self_, 100);
                check(got.b == want.b, 101);
                check(got._under == want._under, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.self_ == m.self_, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.give0(x.clone()); m.self_ = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut SBuilder = b.give0(x.clone()); m.self_ = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_give0(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: u32 = any_u32("v"); b = b.put_b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.put_b(x.clone()); m.b = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(strip_option))]
    pub struct S {
        #[builder(default = "vec![N(7)]", field(public))]
        pub __x: Vec<N>,
        #[builder(try_setter)]
        pub default_: Vec<N>,
        #[builder(setter(into, strip_option = false, prefix = "put", name = "give2"), try_setter, default = "N(7)")]
        pub x1: N,
        #[builder(try_setter, default)]
        pub b: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<Vec<N>>,
        pub default_: Option<Vec<N>>,
        pub x1: Option<N>,
        pub b: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            default_: Default::default(),
            x1: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => vec![N(7)] },
            default_: match m.default_.clone() { Some(v) => v, None => { return Err("default_") } },
            x1: match m.x1.clone() { Some(v) => v, None => N(7) },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.default_ == want.default_, 101);
                check(got.x1 == want.x1, 102);
                check(got.b == want.b, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.default_ == m.default_, 201);
        check(b.x1 == m.x1, 202);
        check(b.b == m.b, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.__x(x.clone()); slots(&b, &m); b = nb; m.__x = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.default_(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(x); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_default_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.give2(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(x); }
                4 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.give2(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(xm); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_give2(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                6 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                7 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(default = "S { err: Cp(7), z9_: Coll { items: [7; 6], len: 1, origin: 7 }, std: Some(Cp(7)), new: Some(Cp(7)) }", create_empty = "blank", build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter, default, field(vis = "pub(super)"))]
        pub err: Cp,
        #[builder(setter(into, each(name = "each1", into)), default = "Coll { items: [7; 6], len: 1, origin: 7 }", field(public))]
        pub z9_: Coll,
        #[builder(pattern = "immutable", setter(strip_option = false), field(ty = "Option<Cp>"), public)]
        pub std: Option<Cp>,
        #[builder(setter(prefix = "put"))]
        pub new: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<Cp>,
        pub z9_: Option<Coll>,
        pub std: Option<Cp>,
        pub new: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            z9_: Default::default(),
            std: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { err: Cp(7), z9_: Coll { items: [7; 6], len: 1, origin: 7 }, std: Some(Cp(7)), new: Some(Cp(7)) };
        let _ = &dflt;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
            z9_: match m.z9_.clone() { Some(v) => v, None => Coll { items: [7; 6], len: 1, origin: 7 } },
            std: m.std.clone(),
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.z9_ == want.z9_, 101);
                check(got.std == want.std, 102);
                check(got.new == want.new, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.z9_ == m.z9_, 201);
        check(b.std == m.std, 202);
        check(b.new == m.new, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.err(x.clone()); m.err = Some(x); }
                1 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.z9_(x.clone()); m.z9_ = Some(x); }
                2 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.z9_, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                3 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.std(x.clone()); slots(&b, &m); b = nb; m.std = x; }
                4 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.put_new(x.clone()); m.new = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s20 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set"), default = "S { r#fn: Some(None), f: Cp(7), item: vec![N(7)] }", name = "Maker", custom_constructor, build_fn(name = "finish"), field(public), derive(Debug))]
    pub struct S {
        #[builder(setter(prefix = "put", name = "assign0"), default)]
        pub r#fn: Option<Option<N>>,
        #[builder(try_setter, field(build = "self.f.unwrap_or(Cp(5))"), private)]
        pub f: Cp,
        #[builder(setter(name = "assign2", each = "each2"))]
        pub item: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<Option<Option<N>>>,
        pub f: Option<Cp>,
        pub item: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            f: Default::default(),
            item: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#fn: Some(None), f: Cp(7), item: vec![N(7)] };
        let _ = &dflt;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            f: m.f.unwrap_or(Cp(5)),
            item: match m.item.clone() { Some(v) => v, None => dflt.item.clone() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.f == want.f, 101);
                check(got.item == want.item, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.f == m.f, 201);
        check(b.item == m.item, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.item = x.clone(); m.item = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.assign0(x.clone()); m.r#fn = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.set_f(x.clone()); m.f = Some(x); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_f(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.assign2(x.clone()); m.item = Some(x); }
                4 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.item, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s21 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(strip_option), try_setter, derive(Debug))]
    pub struct S {
        #[builder(try_setter, default)]
        pub z9_: N,
        #[builder(setter(strip_option))]
        pub wh: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<N>,
        pub wh: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            wh: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => Default::default() },
            wh: match m.wh.clone() { Some(v) => v, None => { return Err("wh") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.wh == want.wh, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.wh == m.wh, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.z9_(x.clone()); m.z9_ = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_z9_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.wh(x.clone()); m.wh = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_wh(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s22 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(into), try_setter, default = "S { f: 7, b: Cp(7) }", build_fn(name = "finish", error(validation_error = false)))]
    pub struct S {
        #[builder(pattern = "immutable", default = "7", field(public))]
        pub f: u32,
        #[builder(pattern = "owned", setter(strip_option = false, name = "assign1"), try_setter)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub f: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            f: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { f: 7, b: Cp(7) };
        let _ = &dflt;
        Ok(S {
            f: match m.f.clone() { Some(v) => v, None => 7 },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.f == want.f, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.f == m.f, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.f = x.clone(); m.f = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.f(x.clone()); slots(&b, &m); b = nb; m.f = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.f(x.clone()); slots(&b, &m); b = nb; m.f = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_f(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.f = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.assign1(x.clone()); m.b = Some(x); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.assign1(x.clone()); m.b = Some(xm); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_assign1(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s23 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", setter(strip_option), try_setter, default, build_fn(error(validation_error = false), private), field(public))]
    pub struct S {
        #[builder(setter(prefix = "put"), default = "Cp(7)")]
        pub result: Cp,
        #[builder(setter(custom), try_setter, field(vis = "pub(super)"))]
        pub z9_: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub result: Option<Cp>,
        pub z9_: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            result: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            result: match m.result.clone() { Some(v) => v, None => Cp(7) },
            z9_: match m.z9_.clone() { Some(v) => v, None => dflt.z9_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.result == want.result, 100);
                check(got.z9_ == want.z9_, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.result == m.result, 200);
        check(b.z9_ == m.z9_, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.put_result(x.clone()); m.result = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_result(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s24 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(setter(skip), name = "Maker", build_fn(error(validation_error = false)))]
    pub struct S {
        #[builder(setter(strip_option, prefix = "put"), try_setter, default)]
        pub r#fn: String,
        #[builder(pattern = "mutable", setter(strip_option = false, prefix = "put", name = "give1"))]
        pub core: String,
        #[builder(setter(each(name = "each2"), strip_option), try_setter)]
        pub converted: Option<Vec<N>>,
        #[builder(pattern = "mutable", setter(strip_option = false, into), default = "Cp(7)")]
        pub z9_: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#fn: Option<String>,
        pub core: Option<String>,
        pub converted: Option<Option<Vec<N>>>,
        pub z9_: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#fn: Default::default(),
            core: Default::default(),
            converted: Default::default(),
            z9_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
            converted: match m.converted.clone() { Some(v) => v, None => { return Err("converted") } },
            z9_: match m.z9_.clone() { Some(v) => v, None => Cp(7) },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#fn == want.r#fn, 100);
                check(got.core == want.core, 101);
                check(got.converted == want.converted, 102);
                check(got.z9_ == want.z9_, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.r#fn == m.r#fn, 200);
        check(b.core == m.core, 201);
        check(b.converted == m.converted, 202);
        check(b.z9_ == m.z9_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut Maker = b.put_fn(x.clone()); m.r#fn = Some(x); }
                1 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut Maker = b.give1(x.clone()); m.core = Some(x); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut Maker = b.converted(x.clone()); m.converted = Some(Some(x)); }
                3 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_converted(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut Maker = b.each2(x.clone()); { let c: &mut Vec<N> = (m.converted.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                5 => { let x: Cp = Cp(any_u32("v")); let _: &mut Maker = b.z9_(x.clone()); m.z9_ = Some(x); }
                6 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b.z9_(x.clone()); m.z9_ = Some(xm); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s25 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option), try_setter, default = "S { a: Some(N(7)), _under: Some(N(7)), new: (7, 8), r#fn: Some(Cp(7)) }", build_fn(vis = "pub(crate)"), no_std)]
    pub struct S {
        #[builder(default = "Some(N(7))")]
        pub a: Option<N>,
        #[builder(setter(strip_option), try_setter)]
        pub _under: Option<N>,
        #[builder(pattern = "immutable", setter(strip_option), default = "(7, 8)", field(vis = "pub(super)"))]
        pub new: (u8, u16),
        #[builder(pattern = "immutable", setter(into = false, name = "assign3", skip), try_setter, default = "Some(Cp(7))")]
        pub r#fn: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub _under: Option<Option<N>>,
        pub new: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            _under: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: Some(N(7)), _under: Some(N(7)), new: (7, 8), r#fn: Some(Cp(7)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Some(N(7)) },
            _under: match m._under.clone() { Some(v) => v, None => dflt._under.clone() },
            new: match m.new.clone() { Some(v) => v, None => (7, 8) },
            r#fn: Some(Cp(7)),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got._under == want._under, 101);
                check(got.new == want.new, 102);
                check(got.r#fn == want.r#fn, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b._under == m._under, 201);
        check(b.new == m.new, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: N = N(any_u32("v")); b = b._under(x.clone()); m._under = Some(Some(x)); }
                4 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b._under(x.clone()); m._under = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try__under(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m._under = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                6 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: SBuilder = b.new(x.clone()); slots(&b, &m); b = nb; m.new = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s26 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set", skip), name = "Maker", field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(prefix = "put"), default = "Some(None)", vis = "pub(crate)")]
        pub value: Option<Option<N>>,
        #[builder(pattern = "mutable", setter(skip), try_setter)]
        pub build_with: u32,
        #[builder(pattern = "owned", setter(prefix = "put", name = "assign2"), try_setter, field(vis = "pub(super)"))]
        pub item: ::std::option::Option<N>,
        #[builder(setter(name = "give3", each = "each3"), default = "vec![N(7)]", private)]
        pub build_: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub value: Option<Option<Option<N>>>,
        pub item: Option<::std::option::Option<N>>,
        pub build_: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            value: Default::default(),
            item: Default::default(),
            build_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            value: match m.value.clone() { Some(v) => v, None => Some(None) },
            build_with: Default::default(),
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            build_: match m.build_.clone() { Some(v) => v, None => vec![N(7)] },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.value == want.value, 100);
                check(got.build_with == want.build_with, 101);
                check(got.item == want.item, 102);
                check(got.build_ == want.build_, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.value == m.value, 200);
        check(b.item == m.item, 202);
        check(b.build_ == m.build_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.put_value(x.clone()); m.value = Some(x); }
                1 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.assign2(x.clone()); m.item = Some(x); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_assign2(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.give3(x.clone()); m.build_ = Some(x); }
                4 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each3(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.build_, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s27 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into = false), custom_constructor, build_fn(name = "finish"), private)]
    pub struct S {
        #[builder(setter(name = "give0"), default = "(7, 8)")]
        pub x1: (u8, u16),
        #[builder(setter(into = false, prefix = "put", custom = false), default = "String::from(\"lit\")")]
        pub self_: String,
        #[builder(setter(into, strip_option, prefix = "put", name = "assign2"), try_setter, default)]
        pub r#type: Cp,
        #[builder(try_setter, public)]
        pub std: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub x1: Option<(u8, u16)>,
        pub self_: Option<String>,
        pub r#type: Option<Cp>,
        pub std: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            x1: Default::default(),
            self_: Default::default(),
            r#type: Default::default(),
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            x1: match m.x1.clone() { Some(v) => v, None => (7, 8) },
            self_: match m.self_.clone() { Some(v) => v, None => String::from("lit") },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            std: match m.std.clone() { Some(v) => v, None => { return Err("std") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.x1 == want.x1, 100);
                check(got.self_ == want.self_, 101);
                check(got.r#type == want.r#type, 102);
                check(got.std == want.std, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.x1 == m.x1, 200);
        check(b.self_ == m.self_, 201);
        check(b.r#type == m.r#type, 202);
        check(b.std == m.std, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: SBuilder = b.give0(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(x); }
                1 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b.put_self_(x.clone()); slots(&b, &m); b = nb; m.self_ = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.assign2(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.assign2(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_assign2(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                5 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.std(x.clone()); slots(&b, &m); b = nb; m.std = Some(x); }
                6 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_std(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s28 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(setter(strip_option), default, name = "Maker", field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "mutable", try_setter, default)]
        pub self_: String,
        #[builder(setter(name = "give1", strip_option), default = "Some(vec![N(7)])", private)]
        pub value: Option<Vec<N>>,
        #[builder(pattern = "owned", setter(custom), default)]
        pub r#type: Option<Cp>,
        #[builder(setter(into), default = "Some(N(7))")]
        pub _under: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub self_: Option<String>,
        pub value: Option<Option<Vec<N>>>,
        pub r#type: Option<Option<Cp>>,
        pub _under: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            self_: Default::default(),
            value: Default::default(),
            r#type: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            self_: match m.self_.clone() { Some(v) => v, None => Default::default() },
            value: match m.value.clone() { Some(v) => v, None => Some(vec![N(7)]) },
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            _under: match m._under.clone() { Some(v) => v, None => Some(N(7)) },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.self_ == want.self_, 100);
                check(got.value == want.value, 101);
                check(got.r#type == want.r#type, 102);
                check(got._under == want._under, 103);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.self_ == m.self_, 200);
        check(b.value == m.value, 201);
        check(b.r#type == m.r#type, 202);
        check(b._under == m._under, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.value = x.clone(); m.value = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut Maker = b.self_(x.clone()); m.self_ = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut Maker = b.give1(x.clone()); m.value = Some(Some(x)); }
                2 => { let x: N = N(any_u32("v")); let _: &mut Maker = b._under(x.clone()); m._under = Some(Some(x)); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut Maker = b._under(x.clone()); m._under = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s29 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option), try_setter, default = "S { wh: Some(N(7)), b: Some(Cp(7)), core: Some(N(7)), new: Some(None) }", create_empty = "blank", custom_constructor)]
    pub struct S {
        #[builder(setter(into = false, prefix = "put", name = "give0"), default)]
        pub wh: Option<N>,
        #[builder(setter, try_setter)]
        pub b: Option<Cp>,
        #[builder(pattern = "immutable", setter(prefix = "put", strip_option))]
        pub core: Option<N>,
        #[builder(setter(skip = false), default)]
        pub new: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub wh: Option<Option<N>>,
        pub b: Option<Option<Cp>>,
        pub core: Option<Option<N>>,
        pub new: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            wh: Default::default(),
            b: Default::default(),
            core: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { wh: Some(N(7)), b: Some(Cp(7)), core: Some(N(7)), new: Some(None) };
        let _ = &dflt;
        Ok(S {
            wh: match m.wh.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            core: match m.core.clone() { Some(v) => v, None => dflt.core.clone() },
            new: match m.new.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.wh == want.wh, 100);
                check(got.b == want.b, 101);
                check(got.core == want.core, 102);
                check(got.new == want.new, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.wh == m.wh, 200);
        check(b.b == m.b, 201);
        check(b.core == m.core, 202);
        check(b.new == m.new, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.wh = x.clone(); m.wh = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 12) {
                0 => { let x: N = N(any_u32("v")); b = b.give0(x.clone()); m.wh = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_give0(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.wh = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.b(x.clone()); m.b = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                5 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put_core(x.clone()); slots(&b, &m); b = nb; m.core = Some(Some(x)); }
                6 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.put_core(x.clone()); slots(&b, &m); b = nb; m.core = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                7 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_core(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.core = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                8 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.new(x.clone()); m.new = Some(Some(x)); }
                9 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.new(x.clone()); m.new = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                10 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_new(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s30 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default, build_fn(error(validation_error = false)), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(setter(strip_option, prefix = "put"), default)]
        pub core: Option<N>,
        #[builder(pattern = "immutable", setter(each(name = "each1")), field(public))]
        pub err: Coll,
        #[builder(setter(into = false))]
        pub converted: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<Option<N>>,
        pub err: Option<Coll>,
        pub converted: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            err: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => Default::default() },
            err: match m.err.clone() { Some(v) => v, None => dflt.err.clone() },
            converted: match m.converted.clone() { Some(v) => v, None => dflt.converted.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.err == want.err, 101);
                check(got.converted == want.converted, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.err == m.err, 201);
        check(b.converted == m.converted, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.put_core(x.clone()); m.core = Some(Some(x)); }
                1 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.err(x.clone()); slots(&b, &m); b = nb; m.err = Some(x); }
                2 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.each1(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.err, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                3 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.converted(x.clone()); m.converted = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s31 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), try_setter, create_empty = "blank", custom_constructor, field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(default)]
        pub default_: Vec<N>,
        #[builder(setter(strip_option), try_setter)]
        pub converted: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<Vec<N>>,
        pub converted: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => Default::default() },
            converted: match m.converted.clone() { Some(v) => v, None => { return Err("converted") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.converted == want.converted, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.converted == m.converted, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::blank();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.default_(x.clone()); m.default_ = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.default_(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_default_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.converted(x.clone()); m.converted = Some(Some(x)); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.converted(x.clone()); m.converted = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_converted(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.converted = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s32 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "set", into, strip_option = false, skip = false), try_setter, default = "S { __x: vec![N(7)], try_it: vec![N(7)] }", name = "Maker", create_empty = "blank", build_fn(name = "finish"), field(vis = "pub(crate)"))]
    pub struct S {
        #[builder(pattern = "mutable", setter(prefix = "put"), default = "vec![N(7)]")]
        pub __x: Vec<N>,
        #[builder(setter(into), default, field(vis = "pub(super)"))]
        pub try_it: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub __x: Option<Vec<N>>,
        pub try_it: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            __x: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { __x: vec![N(7)], try_it: vec![N(7)] };
        let _ = &dflt;
        Ok(S {
            __x: match m.__x.clone() { Some(v) => v, None => vec![N(7)] },
            try_it: match m.try_it.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.__x == want.__x, 100);
                check(got.try_it == want.try_it, 101);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.__x == m.__x, 200);
        check(b.try_it == m.try_it, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.__x = x.clone(); m.__x = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut Maker = b.put___x(x.clone()); m.__x = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut Maker = b.put___x(x.clone()); m.__x = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_put___x(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.__x = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.set_try_it(x.clone()); m.try_it = Some(x); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.set_try_it(x.clone()); m.try_it = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_set_try_it(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.try_it = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s33 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with"), custom_constructor, derive(Debug))]
    pub struct S {
        #[builder(setter(strip_option, name = "assign0"), default)]
        pub b: Option<Cp>,
        #[builder(setter(each(name = "each1"), strip_option))]
        pub converted: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Option<Cp>>,
        pub converted: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            converted: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            converted: match m.converted.clone() { Some(v) => v, None => { return Err("converted") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.converted == want.converted, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.converted == m.converted, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.converted = x.clone(); m.converted = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.assign0(x.clone()); m.b = Some(Some(x)); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.with_converted(x.clone()); m.converted = Some(Some(x)); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.each1(x.clone()); { let c: &mut Vec<N> = (m.converted.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s34 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with", into, strip_option = false), custom_constructor, build_fn(name = "finish"))]
    pub struct S {
        #[builder(setter(prefix = "put"), try_setter, default, field(private))]
        pub a: N,
        #[builder(try_setter)]
        pub core: Option<Cp>,
        #[builder(setter(into, strip_option, skip), default)]
        pub f: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub core: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            core: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            core: match m.core.clone() { Some(v) => v, None => { return Err("core") } },
            f: Default::default(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.core == want.core, 101);
                check(got.f == want.f, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.core == m.core, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.put_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.with_core(x.clone()); slots(&b, &m); b = nb; m.core = Some(x); }
                4 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let nb: SBuilder = b.with_core(x.clone()); slots(&b, &m); b = nb; m.core = Some(xm); check(convs() == c0 + 0, 80); }
                5 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_with_core(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.core = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s35 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(prefix = "with", skip), default, field(public))]
    pub struct S {
        #[builder(setter, default = "vec![N(7)]")]
        pub b: Vec<N>,
        #[builder(setter(prefix = "put", each(name = "each1", into)))]
        pub try_it: Coll,
        #[builder(setter(name = "give2"), default = "vec![N(7)]")]
        pub x1: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Vec<N>>,
        pub try_it: Option<Coll>,
        pub x1: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            try_it: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => vec![N(7)] },
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
            x1: match m.x1.clone() { Some(v) => v, None => vec![N(7)] },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.try_it == want.try_it, 101);
                check(got.x1 == want.x1, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.try_it == m.try_it, 201);
        check(b.x1 == m.x1, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.with_b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                1 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.put_try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(x); }
                2 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.each1(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.try_it, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.give2(x.clone()); slots(&b, &m); b = nb; m.x1 = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s36 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(field(public), derive(Debug))]
    pub struct S {
        #[builder(pattern = "mutable", default = "None")]
        pub _under: ::std::option::Option<N>,
        #[builder(setter(prefix = "put"))]
        pub Upper: ::std::option::Option<N>,
        #[builder(setter(prefix = "put", each(name = "each2", into)))]
        pub x1: Coll,
        #[builder(setter(into), try_setter)]
        pub build_: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub _under: Option<::std::option::Option<N>>,
        pub Upper: Option<::std::option::Option<N>>,
        pub x1: Option<Coll>,
        pub build_: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            _under: Default::default(),
            Upper: Default::default(),
            x1: Default::default(),
            build_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            _under: match m._under.clone() { Some(v) => v, None => None },
            Upper: match m.Upper.clone() { Some(v) => v, None => { return Err("Upper") } },
            x1: match m.x1.clone() { Some(v) => v, None => { return Err("x1") } },
            build_: match m.build_.clone() { Some(v) => v, None => { return Err("build_") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got._under == want._under, 100);
                check(got.Upper == want.Upper, 101);
                check(got.x1 == want.x1, 102);
                check(got.build_ == want.build_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b._under == m._under, 200);
        check(b.Upper == m.Upper, 201);
        check(b.x1 == m.x1, 202);
        check(b.build_ == m.build_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b._under = x.clone(); m._under = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.Upper = x.clone(); m.Upper = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b._under(x.clone()); m._under = Some(x); }
                1 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.put_Upper(x.clone()); m.Upper = Some(x); }
                2 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let _: &mut SBuilder = b.put_x1(x.clone()); m.x1 = Some(x); }
                3 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.each2(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.x1, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                4 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.build_(x.clone()); m.build_ = Some(x); }
                5 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.build_(x.clone()); m.build_ = Some(xm); check(convs() == c0 + 0, 80); }
                6 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_build_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s37 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", field(public))]
    pub struct S {
        #[builder(setter(into, name = "assign0"), default = "Some(Cp(7))")]
        pub core: Option<Cp>,
        #[builder(setter(strip_option, prefix = "put", custom), default)]
        pub err: (u8, u16),
        #[builder(setter(prefix = "put", strip_option), default)]
        pub converted: Option<Vec<N>>,
        #[builder(setter(strip_option), private)]
        pub new: core::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub core: Option<Option<Cp>>,
        pub err: Option<(u8, u16)>,
        pub converted: Option<Option<Vec<N>>>,
        pub new: Option<core::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            core: Default::default(),
            err: Default::default(),
            converted: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            core: match m.core.clone() { Some(v) => v, None => Some(Cp(7)) },
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
            converted: match m.converted.clone() { Some(v) => v, None => Default::default() },
            new: match m.new.clone() { Some(v) => v, None => { return Err("new") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.core == want.core, 100);
                check(got.err == want.err, 101);
                check(got.converted == want.converted, 102);
                check(got.new == want.new, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.core == m.core, 200);
        check(b.err == m.err, 201);
        check(b.converted == m.converted, 202);
        check(b.new == m.new, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.converted = x.clone(); m.converted = x;
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.core = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let nb: SBuilder = b.assign0(x.clone()); slots(&b, &m); b = nb; m.core = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.put_converted(x.clone()); slots(&b, &m); b = nb; m.converted = Some(Some(x)); }
                3 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.new(x.clone()); slots(&b, &m); b = nb; m.new = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s38 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(setter(prefix = "with"), default)]
    pub struct S {
        #[builder(default = "Some(N(7))")]
        pub build_: Option<N>,
        #[builder(setter(into), field(ty = "Cp", public))]
        pub z9_: Cp,
        #[builder(pattern = "mutable", setter(into, prefix = "put", name = "assign2"), default = "Some(None)")]
        pub std: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub build_: Option<Option<N>>,
        pub z9_: Cp,
        pub std: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            build_: Default::default(),
            z9_: Default::default(),
            std: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            build_: match m.build_.clone() { Some(v) => v, None => Some(N(7)) },
            z9_: m.z9_.clone(),
            std: match m.std.clone() { Some(v) => v, None => Some(None) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.build_ == want.build_, 100);
                check(got.z9_ == want.z9_, 101);
                check(got.std == want.std, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.build_ == m.build_, 200);
        check(b.z9_ == m.z9_, 201);
        check(b.std == m.std, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.build_ = x.clone(); m.build_ = x;
            let x: Cp = Cp(any_u32("v"));
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.std = x.clone(); m.std = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.with_build_(x.clone()); m.build_ = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.with_z9_(x.clone()); m.z9_ = x; }
                2 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.with_z9_(x.clone()); m.z9_ = xm; check(convs() == c0 + 1, 80); }
                3 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut SBuilder = b.assign2(x.clone()); m.std = Some(x); }
                4 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.assign2(x.clone()); m.std = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s39 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(into = false, strip_option))]
    pub struct S {
        #[builder(pattern = "immutable", setter(strip_option), default)]
        pub self_: ::std::option::Option<N>,
        #[builder(setter(into), default)]
        pub core: Option<Option<N>>,
        #[builder(setter(name = "give2", strip_option), default = "Some(None)")]
        pub try_it: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub self_: Option<::std::option::Option<N>>,
        pub core: Option<Option<Option<N>>>,
        pub try_it: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            self_: Default::default(),
            core: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            self_: match m.self_.clone() { Some(v) => v, None => Default::default() },
            core: match m.core.clone() { Some(v) => v, None => Default::default() },
            try_it: match m.try_it.clone() { Some(v) => v, None => Some(None) },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.self_ == want.self_, 100);
                check(got.core == want.core, 101);
                check(got.try_it == want.try_it, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.self_ == m.self_, 200);
        check(b.core == m.core, 201);
        check(b.try_it == m.try_it, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.core = x.clone(); m.core = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.self_(x.clone()); slots(&b, &m); b = nb; m.self_ = Some(Some(x)); }
                1 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.core(x.clone()); slots(&b, &m); b = nb; m.core = Some(Some(x)); }
                2 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.core(x.clone()); slots(&b, &m); b = nb; m.core = Some(Some(xm)); check(convs() == c0 + 0, 80); }
                3 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.give2(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s40 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "set", strip_option = false), name = "Maker", custom_constructor, build_fn(name = "finish", private))]
    pub struct S {
        #[builder(setter(into = false), try_setter, default)]
        pub default_: Cp,
        #[builder(setter(prefix = "put"), try_setter, field(public))]
        pub try_it: u32,
        #[builder(setter(strip_option), try_setter, vis = "pub(crate)")]
        pub x1: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub default_: Option<Cp>,
        pub try_it: Option<u32>,
        pub x1: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            default_: Default::default(),
            try_it: Default::default(),
            x1: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            default_: match m.default_.clone() { Some(v) => v, None => Default::default() },
            try_it: match m.try_it.clone() { Some(v) => v, None => { return Err("try_it") } },
            x1: match m.x1.clone() { Some(v) => v, None => { return Err("x1") } },
        })
    }
    pub fn verify(b: &Maker, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.default_ == want.default_, 100);
                check(got.try_it == want.try_it, 101);
                check(got.x1 == want.x1, 102);
            }
            (Err(MakerError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &Maker, m: &M) {
        let _ = (b, m);
        check(b.default_ == m.default_, 200);
        check(b.try_it == m.try_it, 201);
        check(b.x1 == m.x1, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: Maker = Maker::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.x1 = x.clone(); m.x1 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut Maker = b.set_default_(x.clone()); m.default_ = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_default_(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); let _: &mut Maker = b.put_try_it(x.clone()); m.try_it = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_put_try_it(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.try_it = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut Maker = b.set_x1(x.clone()); m.x1 = Some(Some(x)); }
                5 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_set_x1(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.x1 = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s41 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into, strip_option), try_setter, default = "S { result: vec![N(7)], build_: Cp(7), default_: (7, 8), try_it: 7 }", custom_constructor, field(public))]
    pub struct S {
        #[builder(setter(prefix = "put"), try_setter, default)]
        pub result: Vec<N>,
        #[builder(setter(prefix = "put"), field(ty = "Cp"))]
        pub build_: Cp,
        #[builder(vis = "pub(crate)")]
        pub default_: (u8, u16),
        #[builder(setter(name = "give3"), public)]
        pub try_it: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub result: Option<Vec<N>>,
        pub build_: Cp,
        pub default_: Option<(u8, u16)>,
        pub try_it: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            result: Default::default(),
            build_: Default::default(),
            default_: Default::default(),
            try_it: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { result: vec![N(7)], build_: Cp(7), default_: (7, 8), try_it: 7 };
        let _ = &dflt;
        Ok(S {
            result: match m.result.clone() { Some(v) => v, None => Default::default() },
            build_: m.build_.clone(),
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.result == want.result, 100);
                check(got.build_ == want.build_, 101);
                check(got.default_ == want.default_, 102);
                check(got.try_it == want.try_it, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.result == m.result, 200);
        check(b.build_ == m.build_, 201);
        check(b.default_ == m.default_, 202);
        check(b.try_it == m.try_it, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.result = x.clone(); m.result = x;
            let x: Cp = Cp(any_u32("v"));
            b.build_ = x.clone(); m.build_ = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 11) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.put_result(x.clone()); m.result = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.put_result(x.clone()); m.result = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_put_result(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.put_build_(x.clone()); m.build_ = x; }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.put_build_(x.clone()); m.build_ = xm; check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_build_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.build_ = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                6 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); b = b.default_(x.clone()); m.default_ = Some(x); }
                7 => { let x: u32 = any_u32("v"); b = b.give3(x.clone()); m.try_it = Some(x); }
                8 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.give3(x.clone()); m.try_it = Some(xm); check(convs() == c0 + 0, 80); }
                9 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_give3(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.try_it = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s42 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { new: Some(None), default_: Some(None), self_: Some(N(7)) }", no_std)]
    pub struct S {
        #[builder(setter(strip_option, name = "assign0"), try_setter, default = "Some(None)")]
        pub new: Option<Option<N>>,
        #[builder(pattern = "mutable", setter(strip_option = false, name = "assign1"), try_setter, default)]
        pub default_: Option<Option<N>>,
        #[builder(setter(into = false, prefix = "put"), try_setter, public)]
        pub self_: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<Option<Option<N>>>,
        pub default_: Option<Option<Option<N>>>,
        pub self_: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            default_: Default::default(),
            self_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { new: Some(None), default_: Some(None), self_: Some(N(7)) };
        let _ = &dflt;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => Some(None) },
            default_: match m.default_.clone() { Some(v) => v, None => Default::default() },
            self_: match m.self_.clone() { Some(v) => v, None => dflt.self_.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got.default_ == want.default_, 101);
                check(got.self_ == want.self_, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b.default_ == m.default_, 201);
        check(b.self_ == m.self_, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.self_ = x.clone(); m.self_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.assign0(x.clone()); m.new = Some(Some(x)); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_assign0(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let _: &mut SBuilder = b.assign1(x.clone()); m.default_ = Some(x); }
                3 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.put_self_(x.clone()); m.self_ = Some(x); }
                4 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_put_self_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.self_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s43 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", setter(prefix = "set", skip), try_setter, default, private, field(public))]
    pub struct S {
        #[builder(pattern = "owned", setter(into), try_setter, default = "7")]
        pub new: u32,
        #[builder(setter(name = "give1"), field(ty = "Option<Option<Cp>>"))]
        pub _under: Option<Option<Cp>>,
        #[builder(pattern = "owned", setter(name = "assign2", each(name = "each2", into)), try_setter, default)]
        pub err: Coll,
    }
    #[derive(Clone)]
    pub struct M {
        pub new: Option<u32>,
        pub _under: Option<Option<Cp>>,
        pub err: Option<Coll>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            new: Default::default(),
            _under: Default::default(),
            err: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            new: match m.new.clone() { Some(v) => v, None => 7 },
            _under: m._under.clone(),
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.new == want.new, 100);
                check(got._under == want._under, 101);
                check(got.err == want.err, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.new == m.new, 200);
        check(b._under == m._under, 201);
        check(b.err == m.err, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.new = x.clone(); m.new = x;
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b._under = x.clone(); m._under = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.err = x.clone(); m.err = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: u32 = any_u32("v"); b = b.set_new(x.clone()); m.new = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.set_new(x.clone()); m.new = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_set_new(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.new = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; b = b.give1(x.clone()); m._under = x; }
                4 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; b = b.assign2(x.clone()); m.err = Some(x); }
                5 => { let x = any_u8("it"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.each2(x.clone()); { let c: &mut Coll = Option::get_or_insert_with(&mut m.err, Default::default); c.push(xm.0); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s44 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", try_setter, default)]
    pub struct S {
        #[builder(setter(strip_option), try_setter, default)]
        pub z9_: Vec<N>,
        #[builder(pattern = "immutable", setter(into, custom))]
        pub try_it: ::std::option::Option<N>,
        #[builder(setter(skip))]
        pub __x: ::std::option::Option<N>,
        #[builder(pattern = "immutable", setter(prefix = "put"), default)]
        pub result: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub z9_: Option<Vec<N>>,
        pub try_it: Option<::std::option::Option<N>>,
        pub result: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z9_: Default::default(),
            try_it: Default::default(),
            result: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            z9_: match m.z9_.clone() { Some(v) => v, None => Default::default() },
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
            __x: dflt.__x.clone(),
            result: match m.result.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z9_ == want.z9_, 100);
                check(got.try_it == want.try_it, 101);
                check(got.__x == want.__x, 102);
                check(got.result == want.result, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z9_ == m.z9_, 200);
        check(b.try_it == m.try_it, 201);
        check(b.result == m.result, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.z9_ = x.clone(); m.z9_ = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.result = x.clone(); m.result = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.z9_(x.clone()); m.z9_ = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_z9_(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.z9_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.put_result(x.clone()); slots(&b, &m); b = nb; m.result = Some(x); }
                3 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_put_result(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.result = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s45 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "with"), try_setter)]
    pub struct S {
        #[builder(setter(into, prefix = "put"), try_setter, default = "None")]
        pub std: ::std::option::Option<N>,
        #[builder(setter(each(name = "each1"), strip_option), try_setter)]
        pub item: Option<Vec<N>>,
        #[builder(setter(prefix = "put"), try_setter)]
        pub value: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub std: Option<::std::option::Option<N>>,
        pub item: Option<Option<Vec<N>>>,
        pub value: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            std: Default::default(),
            item: Default::default(),
            value: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            std: match m.std.clone() { Some(v) => v, None => None },
            item: match m.item.clone() { Some(v) => v, None => { return Err("item") } },
            value: match m.value.clone() { Some(v) => v, None => { return Err("value") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.std == want.std, 100);
                check(got.item == want.item, 101);
                check(got.value == want.value, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.std == m.std, 200);
        check(b.item == m.item, 201);
        check(b.value == m.value, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.std = x.clone(); m.std = x;
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.item = x.clone(); m.item = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.value = x.clone(); m.value = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.put_std(x.clone()); m.std = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.put_std(x.clone()); m.std = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_put_std(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.std = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.with_item(x.clone()); m.item = Some(Some(x)); }
                4 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_with_item(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.item = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                5 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.each1(x.clone()); { let c: &mut Vec<N> = (m.item.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                6 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.put_value(x.clone()); m.value = Some(x); }
                7 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_put_value(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.value = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s46 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with", into = false), default = "S { err: (7, 8), b: 7, try_it: Coll { items: [7; 6], len: 1, origin: 7 }, default_: None }", custom_constructor, build_fn(name = "finish"), field(public))]
    pub struct S {
        #[builder(pattern = "mutable", default, field(private))]
        pub err: (u8, u16),
        #[builder(pattern = "immutable", setter(into, prefix = "put", skip = false), default)]
        pub b: u32,
        #[builder(setter(prefix = "put", each = "each2"))]
        pub try_it: Coll,
        #[builder(pattern = "immutable", setter(prefix = "put"), try_setter, field(public), vis = "pub(crate)")]
        pub default_: ::std::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub err: Option<(u8, u16)>,
        pub b: Option<u32>,
        pub try_it: Option<Coll>,
        pub default_: Option<::std::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            err: Default::default(),
            b: Default::default(),
            try_it: Default::default(),
            default_: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { err: (7, 8), b: 7, try_it: Coll { items: [7; 6], len: 1, origin: 7 }, default_: None };
        let _ = &dflt;
        Ok(S {
            err: match m.err.clone() { Some(v) => v, None => Default::default() },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
            try_it: match m.try_it.clone() { Some(v) => v, None => dflt.try_it.clone() },
            default_: match m.default_.clone() { Some(v) => v, None => dflt.default_.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.err == want.err, 100);
                check(got.b == want.b, 101);
                check(got.try_it == want.try_it, 102);
                check(got.default_ == want.default_, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.err == m.err, 200);
        check(b.b == m.b, 201);
        check(b.try_it == m.try_it, 202);
        check(b.default_ == m.default_, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::create_empty();
        let mut m = empty();
        if wild {
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Coll> = if flag("set") { Some(Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }) } else { None };
            b.try_it = x.clone(); m.try_it = x;
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 8) {
                0 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let _: &mut SBuilder = b.with_err(x.clone()); m.err = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.put_b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.put_b(x.clone()); slots(&b, &m); b = nb; m.b = Some(xm); check(convs() == c0 + 0, 80); }
                3 => { let x: Coll = Coll { items: [any_u32("i0"), 0, 0, 0, 0, 0], len: 1, origin: 2 }; let nb: SBuilder = b.put_try_it(x.clone()); slots(&b, &m); b = nb; m.try_it = Some(x); }
                4 => { let x = Cp(any_u32("it")); let xm: Cp = x; let c0 = convs(); let nb: SBuilder = b.each2(x.clone()); slots(&b, &m); b = nb; { let c: &mut Coll = Option::get_or_insert_with(&mut m.try_it, Default::default); c.push(xm.0); } check(convs() == c0 + 0, 85); }
                5 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.put_default_(x.clone()); slots(&b, &m); b = nb; m.default_ = Some(x); }
                6 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_put_default_(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.default_ = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s47 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(strip_option), private)]
    pub struct S {
        #[builder(pattern = "owned", setter(strip_option, name = "give0"), default = "7")]
        pub a: u32,
        #[builder(pattern = "immutable", setter(strip_option, name = "give1", into), try_setter, default = "(7, 8)")]
        pub _under: (u8, u16),
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub _under: Option<(u8, u16)>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            _under: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => 7 },
            _under: match m._under.clone() { Some(v) => v, None => (7, 8) },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got._under == want._under, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b._under == m._under, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<(u8, u16)> = if flag("set") { Some((any_u8("t0"), any_u16("t1"))) } else { None };
            b._under = x.clone(); m._under = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: u32 = any_u32("v"); b = b.give0(x.clone()); m.a = Some(x); }
                1 => { let x: (u8, u16) = (any_u8("t0"), any_u16("t1")); let nb: SBuilder = b.give1(x.clone()); slots(&b, &m); b = nb; m._under = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s48 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(into), default = "S { r#type: Some(N(7)), default_: Cp(7), err: Some(None), new: Some(None) }", build_fn(name = "finish"), no_std, private)]
    pub struct S {
        #[builder(setter(name = "assign0"), default = "Some(N(7))")]
        pub r#type: Option<N>,
        #[builder(field(build = "self.default_.unwrap_or(Cp(5))"))]
        pub default_: Cp,
        #[builder(setter(into, prefix = "put", name = "give2"), try_setter)]
        pub err: Option<Option<N>>,
        #[builder(pattern = "immutable", setter)]
        pub new: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<Option<N>>,
        pub default_: Option<Cp>,
        pub err: Option<Option<Option<N>>>,
        pub new: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            default_: Default::default(),
            err: Default::default(),
            new: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { r#type: Some(N(7)), default_: Cp(7), err: Some(None), new: Some(None) };
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Some(N(7)) },
            default_: m.default_.unwrap_or(Cp(5)),
            err: match m.err.clone() { Some(v) => v, None => dflt.err.clone() },
            new: match m.new.clone() { Some(v) => v, None => dflt.new.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.finish(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.default_ == want.default_, 101);
                check(got.err == want.err, 102);
                check(got.new == want.new, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.default_ == m.default_, 201);
        check(b.err == m.err, 202);
        check(b.new == m.new, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.default_ = x.clone(); m.default_ = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.err = x.clone(); m.err = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.new = x.clone(); m.new = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 9) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.assign0(x.clone()); m.r#type = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.assign0(x.clone()); m.r#type = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.default_(x.clone()); m.default_ = Some(x); }
                3 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.default_(x.clone()); m.default_ = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; b = b.give2(x.clone()); m.err = Some(x); }
                5 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); b = b.give2(x.clone()); m.err = Some(xm); check(convs() == c0 + 0, 80); }
                6 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let nb: SBuilder = b.new(x.clone()); slots(&b, &m); b = nb; m.new = Some(x); }
                7 => { let x = Some(N(any_u32("x"))); let xm: Option<Option<N>> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.new(x.clone()); slots(&b, &m); b = nb; m.new = Some(xm); check(convs() == c0 + 0, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s49 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", setter(into, strip_option), default, private)]
    pub struct S {
        #[builder(setter(into = false, strip_option = false, name = "give0"), default = "Some(None)", private)]
        pub r#type: Option<Option<N>>,
        #[builder(setter(name = "give1", strip_option))]
        pub f: core::option::Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<Option<Option<N>>>,
        pub f: Option<core::option::Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            f: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Some(None) },
            f: match m.f.clone() { Some(v) => v, None => dflt.f.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.f == want.f, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.f == m.f, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<core::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.f = x.clone(); m.f = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<Option<N>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }; let nb: SBuilder = b.give0(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(x); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.give1(x.clone()); slots(&b, &m); b = nb; m.f = Some(Some(x)); }
                2 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.give1(x.clone()); slots(&b, &m); b = nb; m.f = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub const COUNT: usize = 50;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(2 + extra, false),
        1 => s1::run(2 + extra, false),
        2 => s2::run(2 + extra, false),
        3 => s3::run(2 + extra, false),
        4 => s4::run(2 + extra, false),
        5 => s5::run(2 + extra, false),
        6 => s6::run(2 + extra, false),
        7 => s7::run(2 + extra, false),
        8 => s8::run(2 + extra, false),
        9 => s9::run(2 + extra, false),
        10 => s10::run(2 + extra, false),
        11 => s11::run(2 + extra, false),
        12 => s12::run(2 + extra, false),
        13 => s13::run(2 + extra, false),
        14 => s14::run(2 + extra, false),
        15 => s15::run(2 + extra, false),
        16 => s16::run(2 + extra, false),
        17 => s17::run(2 + extra, false),
        18 => s18::run(2 + extra, false),
        19 => s19::run(2 + extra, false),
        20 => s20::run(2 + extra, false),
        21 => s21::run(2 + extra, false),
        22 => s22::run(2 + extra, false),
        23 => s23::run(2 + extra, false),
        24 => s24::run(2 + extra, false),
        25 => s25::run(2 + extra, false),
        26 => s26::run(2 + extra, false),
        27 => s27::run(2 + extra, false),
        28 => s28::run(2 + extra, false),
        29 => s29::run(2 + extra, false),
        30 => s30::run(2 + extra, false),
        31 => s31::run(2 + extra, false),
        32 => s32::run(2 + extra, false),
        33 => s33::run(2 + extra, false),
        34 => s34::run(2 + extra, false),
        35 => s35::run(2 + extra, false),
        36 => s36::run(2 + extra, false),
        37 => s37::run(2 + extra, false),
        38 => s38::run(2 + extra, false),
        39 => s39::run(2 + extra, false),
        40 => s40::run(2 + extra, false),
        41 => s41::run(2 + extra, false),
        42 => s42::run(2 + extra, false),
        43 => s43::run(2 + extra, false),
        44 => s44::run(2 + extra, false),
        45 => s45::run(2 + extra, false),
        46 => s46::run(2 + extra, false),
        47 => s47::run(2 + extra, false),
        48 => s48::run(2 + extra, false),
        _ => s49::run(2 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        19 => s19::run(k, true),
        20 => s20::run(k, true),
        21 => s21::run(k, true),
        22 => s22::run(k, true),
        23 => s23::run(k, true),
        24 => s24::run(k, true),
        25 => s25::run(k, true),
        26 => s26::run(k, true),
        27 => s27::run(k, true),
        28 => s28::run(k, true),
        29 => s29::run(k, true),
        30 => s30::run(k, true),
        31 => s31::run(k, true),
        32 => s32::run(k, true),
        33 => s33::run(k, true),
        34 => s34::run(k, true),
        35 => s35::run(k, true),
        36 => s36::run(k, true),
        37 => s37::run(k, true),
        38 => s38::run(k, true),
        39 => s39::run(k, true),
        40 => s40::run(k, true),
        41 => s41::run(k, true),
        42 => s42::run(k, true),
        43 => s43::run(k, true),
        44 => s44::run(k, true),
        45 => s45::run(k, true),
        46 => s46::run(k, true),
        47 => s47::run(k, true),
        48 => s48::run(k, true),
        _ => s49::run(k, true),
    }
}
