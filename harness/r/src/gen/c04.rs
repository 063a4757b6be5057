// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", derive(PartialEq, Debug))]
    pub struct S {
        pub a: N,
        #[builder(default = 4)]
        pub b: u32,
        #[builder(setter(strip_option))]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => 4 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.c(x.clone()); m.c = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", derive(PartialEq, Debug))]
    pub struct S {
        pub a: String,
        #[builder(setter(each = "item"))]
        pub b: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<String>,
        pub b: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(setter(into))]
        pub a: N,
        #[builder(try_setter)]
        pub b: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(setter(strip_option, each(name = "item", into)))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(field(ty = "Cp"))]
        pub a: Cp,
        #[builder(field(build = "Cp(self.b.map(|x| x.0).unwrap_or(3))"))]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
            b: Cp(m.b.map(|x| x.0).unwrap_or(3)),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = x; }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Cp,
        #[builder(setter(strip_option, into), try_setter)]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: N,
        pub b: N,
        #[builder(pattern = "immutable", setter(each = "item"))]
        pub c: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub c: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                3 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.c, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(pattern = "immutable", try_setter)]
        pub a: N,
        #[builder(pattern = "immutable", setter(strip_option, into))]
        pub b: Option<N>,
        #[builder(pattern = "immutable", field(ty = "Cp"))]
        pub c: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Option<N>>,
        pub c: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: m.c.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Cp = Cp(any_u32("v"));
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                4 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = x; }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2 }", derive(PartialEq, Debug))]
    pub struct S {
        pub a: N,
        #[builder(setter(skip), default = 4)]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2 };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: 4,
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", derive(PartialEq, Debug))]
    pub struct S {
        pub a: N,
        #[builder(default = 4)]
        pub b: u32,
        #[builder(setter(strip_option))]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => 4 },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", derive(PartialEq, Debug))]
    pub struct S {
        pub a: String,
        #[builder(setter(each = "item"))]
        pub b: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<String>,
        pub b: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<String> = if flag("set") { Some(String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap()) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: String = String::from_utf8(vec![any_u8("c0") & 0x7f, any_u8("c1") & 0x7f]).unwrap(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.b, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(setter(into))]
        pub a: N,
        #[builder(try_setter)]
        pub b: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(setter(strip_option, each(name = "item", into)))]
        pub a: Option<Vec<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Vec<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Vec<N>>> = if flag("set") { Some(match below("len", 3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![N(any_u32("e0"))]) }) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = (m.a.get_or_insert_with(|| Some(Default::default())).get_or_insert_with(Default::default)); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(field(ty = "Cp"))]
        pub a: Cp,
        #[builder(field(build = "Cp(self.b.map(|x| x.0).unwrap_or(3))"))]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
            b: Cp(m.b.map(|x| x.0).unwrap_or(3)),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = x; }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Cp,
        #[builder(setter(strip_option, into), try_setter)]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                4 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                5 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub a: N,
        pub b: N,
        #[builder(pattern = "mutable", setter(each = "item"))]
        pub c: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub c: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                3 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.c, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(pattern = "mutable", try_setter)]
        pub a: N,
        #[builder(pattern = "mutable", setter(strip_option, into))]
        pub b: Option<N>,
        #[builder(pattern = "mutable", field(ty = "Cp"))]
        pub c: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Option<N>>,
        pub c: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: m.c.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Cp = Cp(any_u32("v"));
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                4 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.c(x.clone()); m.c = x; }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2 }", derive(PartialEq, Debug))]
    pub struct S {
        pub a: N,
        #[builder(setter(skip), default = 4)]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2 };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: 4,
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub a: N,
        #[builder(pattern = "immutable", try_setter)]
        pub b: N,
        #[builder(pattern = "immutable", setter(each(name = "item", into)))]
        pub c: Vec<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub c: Option<Vec<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                4 => { let x = any_u8("it"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.c, Default::default); c.push(xm.clone()); } check(convs() == c0 + 1, 85); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", derive(PartialEq, Debug))]
    pub struct S {
        #[builder(pattern = "immutable", setter(strip_option, into))]
        pub a: Option<N>,
        #[builder(pattern = "immutable", setter(into))]
        pub b: u32,
        pub c: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<u32>,
        pub c: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(xm); check(convs() == c0 + 0, 80); }
                4 => { let x: u32 = any_u32("v"); b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub const COUNT: usize = 20;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(3 + extra, false),
        1 => s1::run(3 + extra, false),
        2 => s2::run(3 + extra, false),
        3 => s3::run(3 + extra, false),
        4 => s4::run(3 + extra, false),
        5 => s5::run(3 + extra, false),
        6 => s6::run(3 + extra, false),
        7 => s7::run(3 + extra, false),
        8 => s8::run(3 + extra, false),
        9 => s9::run(3 + extra, false),
        10 => s10::run(3 + extra, false),
        11 => s11::run(3 + extra, false),
        12 => s12::run(3 + extra, false),
        13 => s13::run(3 + extra, false),
        14 => s14::run(3 + extra, false),
        15 => s15::run(3 + extra, false),
        16 => s16::run(3 + extra, false),
        17 => s17::run(3 + extra, false),
        18 => s18::run(3 + extra, false),
        _ => s19::run(3 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        _ => s19::run(k, true),
    }
}
