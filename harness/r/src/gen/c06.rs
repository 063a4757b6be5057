// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s20 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s21 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s22 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s23 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s24 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s25 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s26 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s27 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s28 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s29 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s30 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s31 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s32 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s33 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s34 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s35 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s36 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s37 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s38 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s39 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s40 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s41 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s42 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s43 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s44 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s45 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s46 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s47 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s48 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s49 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s50 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s51 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s52 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s53 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s54 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s55 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s56 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter, field(ty = "Cp"))]
        pub a: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = x; }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s57 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(ty = "Cp"))]
        pub a: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = x; }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s58 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter, field(ty = "Option<Cp>"))]
        pub a: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = x; }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s59 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(ty = "Option<Cp>"))]
        pub a: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s60 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter, field(ty = "Option<Option<Cp>>"))]
        pub a: Option<Option<Cp>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; let _: &mut SBuilder = b.a(x.clone()); m.a = x; }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s61 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(ty = "Option<Option<Cp>>"))]
        pub a: Option<Option<Cp>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s62 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(name = "alpha"), try_setter)]
        pub a: N,
        #[builder(setter(prefix = "set"), try_setter)]
        pub b: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.alpha(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_alpha(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.set_b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s63 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(prefix = "with"), try_setter)]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(setter(prefix = "put"))]
        pub b: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.with_a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.put_b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s64 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(try_setter)]
        pub b: u32,
        #[builder(setter(strip_option), try_setter)]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.c(x.clone()); m.c = Some(Some(x)); }
                5 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_c(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.c = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s65 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter, default)]
        pub r#type: N,
        #[builder(setter(prefix = "set"), try_setter, default)]
        pub r#fn: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<N>,
        pub r#fn: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.r#fn == want.r#fn, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.r#fn == m.r#fn, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.r#type(x.clone()); m.r#type = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_type(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.set_fn(x.clone()); m.r#fn = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_set_fn(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s66 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "owned", try_setter)]
        pub a: Cp,
        #[builder(pattern = "owned", setter(strip_option), try_setter)]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s67 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "immutable", try_setter)]
        pub a: Cp,
        #[builder(pattern = "immutable", setter(strip_option), try_setter)]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s68 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", try_setter)]
    pub struct S {
        pub a: N,
        #[builder(setter(skip))]
        pub b: N,
        #[builder(setter)]
        pub c: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub c: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: Default::default(),
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_c(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.c = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s69 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s70 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s71 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s72 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s73 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s74 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s75 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s76 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s77 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s78 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s79 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s80 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s81 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s82 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s83 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s84 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s85 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s86 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s87 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s88 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s89 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s90 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s91 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s92 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s93 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s94 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s95 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s96 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s97 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s98 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s99 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s100 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s101 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s102 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s103 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s104 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s105 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s106 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s107 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s108 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s109 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s110 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s111 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s112 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s113 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s114 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s115 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s116 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.a(x.clone()); m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s117 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s118 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s119 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s120 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s121 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s122 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s123 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s124 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); b = b.a(x.clone()); m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s125 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter, field(ty = "Cp"))]
        pub a: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = x; }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s126 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(ty = "Cp"))]
        pub a: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = x; }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s127 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter, field(ty = "Option<Cp>"))]
        pub a: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = x; }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s128 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(ty = "Option<Cp>"))]
        pub a: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s129 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter, field(ty = "Option<Option<Cp>>"))]
        pub a: Option<Option<Cp>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; b = b.a(x.clone()); m.a = x; }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s130 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(ty = "Option<Option<Cp>>"))]
        pub a: Option<Option<Cp>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s131 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(name = "alpha"), try_setter)]
        pub a: N,
        #[builder(setter(prefix = "set"), try_setter)]
        pub b: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.alpha(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_alpha(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); b = b.set_b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_set_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s132 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(prefix = "with"), try_setter)]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(setter(prefix = "put"))]
        pub b: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.with_a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_with_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); b = b.put_b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_put_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s133 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(try_setter)]
        pub b: u32,
        #[builder(setter(strip_option), try_setter)]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                4 => { let x: N = N(any_u32("v")); b = b.c(x.clone()); m.c = Some(Some(x)); }
                5 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_c(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.c = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s134 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter, default)]
        pub r#type: N,
        #[builder(setter(prefix = "set"), try_setter, default)]
        pub r#fn: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<N>,
        pub r#fn: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.r#fn == want.r#fn, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.r#fn == m.r#fn, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.r#type(x.clone()); m.r#type = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_type(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); b = b.set_fn(x.clone()); m.r#fn = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_set_fn(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s135 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "mutable", try_setter)]
        pub a: Cp,
        #[builder(pattern = "mutable", setter(strip_option), try_setter)]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s136 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "immutable", try_setter)]
        pub a: Cp,
        #[builder(pattern = "immutable", setter(strip_option), try_setter)]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s137 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", try_setter)]
    pub struct S {
        pub a: N,
        #[builder(setter(skip))]
        pub b: N,
        #[builder(setter)]
        pub c: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub c: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: Default::default(),
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); b = b.c(x.clone()); m.c = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_c(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.c = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s138 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s139 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s140 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s141 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s142 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s143 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s144 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s145 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: u32,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<u32>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: u32 = x as u32; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s146 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s147 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s148 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s149 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s150 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s151 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s152 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s153 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: N,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s154 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s155 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s156 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s157 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s158 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s159 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s160 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s161 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Cp,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s162 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s163 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s164 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s165 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s166 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s167 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s168 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s169 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s170 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s171 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s172 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s173 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s174 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s175 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Option<Cp> = Some(x); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s176 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s177 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Option<Cp>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s178 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s179 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s180 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s181 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s182 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s183 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: ::std::option::Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = N(any_u32("x")); let xm: ::std::option::Option<N> = Some(x.clone()); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = N(any_u32("x")); let xm: Result<::std::option::Option<N>, ()> = Ok::<_, ()>(Some(x.clone())); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s184 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s185 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: ::std::option::Option<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<::std::option::Option<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<::std::option::Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(x)); }
                1 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(Some(xm)); check(convs() == c0 + 1, 80); }
                2 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s186 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s187 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(into), try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s188 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s189 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option, into), try_setter)]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s190 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s191 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(into))]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s192 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option))]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s193 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        #[builder(setter(strip_option, into))]
        pub a: Vec<N>,
        #[builder(default)]
        pub b: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Vec<N>>,
        pub b: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = [N(any_u32("x")), N(3)]; let xm: Vec<N> = vec![x[0].clone(), N(3)]; let c0 = convs(); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(xm); check(convs() == c0 + 0, 80); }
                2 => { let x = [N(any_u32("x")), N(3)]; let xm: Result<Vec<N>, ()> = Ok::<_, ()>(vec![x[0].clone(), N(3)]); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                4 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s194 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter, field(ty = "Cp"))]
        pub a: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = x; }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s195 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(ty = "Cp"))]
        pub a: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Cp,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Cp = Cp(any_u32("v"));
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = x; }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s196 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter, field(ty = "Option<Cp>"))]
        pub a: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = x; }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = v; } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s197 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(ty = "Option<Cp>"))]
        pub a: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s198 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter, field(ty = "Option<Option<Cp>>"))]
        pub a: Option<Option<Cp>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 2) {
                0 => { let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = x; }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s199 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(strip_option), try_setter, field(ty = "Option<Option<Cp>>"))]
        pub a: Option<Option<Cp>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: m.a.clone(),
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<Cp>> = match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(Cp(any_u32("v")))) };
            b.a = x.clone(); m.a = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: Option<Cp> = if flag("some") { Some(Cp(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = Cp(any_u32("x")); let xm: Result<Option<Cp>, ()> = Ok::<_, ()>(Some(x)); let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| false, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s200 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(name = "alpha"), try_setter)]
        pub a: N,
        #[builder(setter(prefix = "set"), try_setter)]
        pub b: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.alpha(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_alpha(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.set_b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_set_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s201 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(prefix = "with"), try_setter)]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(setter(prefix = "put"))]
        pub b: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.with_a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_with_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.put_b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_put_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s202 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(try_setter)]
        pub b: u32,
        #[builder(setter(strip_option), try_setter)]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 7) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                4 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(Some(x)); }
                5 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_c(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.c = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s203 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter, default)]
        pub r#type: N,
        #[builder(setter(prefix = "set"), try_setter, default)]
        pub r#fn: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub r#type: Option<N>,
        pub r#fn: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            r#type: Default::default(),
            r#fn: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            r#type: match m.r#type.clone() { Some(v) => v, None => Default::default() },
            r#fn: match m.r#fn.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.r#type == want.r#type, 100);
                check(got.r#fn == want.r#fn, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.r#type == m.r#type, 200);
        check(b.r#fn == m.r#fn, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.r#type = x.clone(); m.r#type = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.r#fn = x.clone(); m.r#fn = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.r#type(x.clone()); slots(&b, &m); b = nb; m.r#type = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_type(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#type = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.set_fn(x.clone()); slots(&b, &m); b = nb; m.r#fn = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_set_fn(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.r#fn = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s204 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "mutable", try_setter)]
        pub a: Cp,
        #[builder(pattern = "mutable", setter(strip_option), try_setter)]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s205 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "owned", try_setter)]
        pub a: Cp,
        #[builder(pattern = "owned", setter(strip_option), try_setter)]
        pub b: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Cp>,
        pub b: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(Some(x)); }
                3 => { let x = any_u16("x"); let xm: Result<Cp, ()> = match n_of_u16(x) { Ok(v) => Ok(Cp(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(Some(v)); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s206 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", try_setter)]
    pub struct S {
        pub a: N,
        #[builder(setter(skip))]
        pub b: N,
        #[builder(setter)]
        pub c: N,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub c: Option<N>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: Default::default(),
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                3 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_c(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.c = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub const COUNT: usize = 207;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(2 + extra, false),
        1 => s1::run(2 + extra, false),
        2 => s2::run(2 + extra, false),
        3 => s3::run(2 + extra, false),
        4 => s4::run(2 + extra, false),
        5 => s5::run(2 + extra, false),
        6 => s6::run(2 + extra, false),
        7 => s7::run(2 + extra, false),
        8 => s8::run(2 + extra, false),
        9 => s9::run(2 + extra, false),
        10 => s10::run(2 + extra, false),
        11 => s11::run(2 + extra, false),
        12 => s12::run(2 + extra, false),
        13 => s13::run(2 + extra, false),
        14 => s14::run(2 + extra, false),
        15 => s15::run(2 + extra, false),
        16 => s16::run(2 + extra, false),
        17 => s17::run(2 + extra, false),
        18 => s18::run(2 + extra, false),
        19 => s19::run(2 + extra, false),
        20 => s20::run(2 + extra, false),
        21 => s21::run(2 + extra, false),
        22 => s22::run(2 + extra, false),
        23 => s23::run(2 + extra, false),
        24 => s24::run(2 + extra, false),
        25 => s25::run(2 + extra, false),
        26 => s26::run(2 + extra, false),
        27 => s27::run(2 + extra, false),
        28 => s28::run(2 + extra, false),
        29 => s29::run(2 + extra, false),
        30 => s30::run(2 + extra, false),
        31 => s31::run(2 + extra, false),
        32 => s32::run(2 + extra, false),
        33 => s33::run(2 + extra, false),
        34 => s34::run(2 + extra, false),
        35 => s35::run(2 + extra, false),
        36 => s36::run(2 + extra, false),
        37 => s37::run(2 + extra, false),
        38 => s38::run(2 + extra, false),
        39 => s39::run(2 + extra, false),
        40 => s40::run(2 + extra, false),
        41 => s41::run(2 + extra, false),
        42 => s42::run(2 + extra, false),
        43 => s43::run(2 + extra, false),
        44 => s44::run(2 + extra, false),
        45 => s45::run(2 + extra, false),
        46 => s46::run(2 + extra, false),
        47 => s47::run(2 + extra, false),
        48 => s48::run(2 + extra, false),
        49 => s49::run(2 + extra, false),
        50 => s50::run(2 + extra, false),
        51 => s51::run(2 + extra, false),
        52 => s52::run(2 + extra, false),
        53 => s53::run(2 + extra, false),
        54 => s54::run(2 + extra, false),
        55 => s55::run(2 + extra, false),
        56 => s56::run(2 + extra, false),
        57 => s57::run(2 + extra, false),
        58 => s58::run(2 + extra, false),
        59 => s59::run(2 + extra, false),
        60 => s60::run(2 + extra, false),
        61 => s61::run(2 + extra, false),
        62 => s62::run(3 + extra, false),
        63 => s63::run(3 + extra, false),
        64 => s64::run(3 + extra, false),
        65 => s65::run(2 + extra, false),
        66 => s66::run(3 + extra, false),
        67 => s67::run(3 + extra, false),
        68 => s68::run(2 + extra, false),
        69 => s69::run(2 + extra, false),
        70 => s70::run(2 + extra, false),
        71 => s71::run(2 + extra, false),
        72 => s72::run(2 + extra, false),
        73 => s73::run(2 + extra, false),
        74 => s74::run(2 + extra, false),
        75 => s75::run(2 + extra, false),
        76 => s76::run(2 + extra, false),
        77 => s77::run(2 + extra, false),
        78 => s78::run(2 + extra, false),
        79 => s79::run(2 + extra, false),
        80 => s80::run(2 + extra, false),
        81 => s81::run(2 + extra, false),
        82 => s82::run(2 + extra, false),
        83 => s83::run(2 + extra, false),
        84 => s84::run(2 + extra, false),
        85 => s85::run(2 + extra, false),
        86 => s86::run(2 + extra, false),
        87 => s87::run(2 + extra, false),
        88 => s88::run(2 + extra, false),
        89 => s89::run(2 + extra, false),
        90 => s90::run(2 + extra, false),
        91 => s91::run(2 + extra, false),
        92 => s92::run(2 + extra, false),
        93 => s93::run(2 + extra, false),
        94 => s94::run(2 + extra, false),
        95 => s95::run(2 + extra, false),
        96 => s96::run(2 + extra, false),
        97 => s97::run(2 + extra, false),
        98 => s98::run(2 + extra, false),
        99 => s99::run(2 + extra, false),
        100 => s100::run(2 + extra, false),
        101 => s101::run(2 + extra, false),
        102 => s102::run(2 + extra, false),
        103 => s103::run(2 + extra, false),
        104 => s104::run(2 + extra, false),
        105 => s105::run(2 + extra, false),
        106 => s106::run(2 + extra, false),
        107 => s107::run(2 + extra, false),
        108 => s108::run(2 + extra, false),
        109 => s109::run(2 + extra, false),
        110 => s110::run(2 + extra, false),
        111 => s111::run(2 + extra, false),
        112 => s112::run(2 + extra, false),
        113 => s113::run(2 + extra, false),
        114 => s114::run(2 + extra, false),
        115 => s115::run(2 + extra, false),
        116 => s116::run(2 + extra, false),
        117 => s117::run(2 + extra, false),
        118 => s118::run(2 + extra, false),
        119 => s119::run(2 + extra, false),
        120 => s120::run(2 + extra, false),
        121 => s121::run(2 + extra, false),
        122 => s122::run(2 + extra, false),
        123 => s123::run(2 + extra, false),
        124 => s124::run(2 + extra, false),
        125 => s125::run(2 + extra, false),
        126 => s126::run(2 + extra, false),
        127 => s127::run(2 + extra, false),
        128 => s128::run(2 + extra, false),
        129 => s129::run(2 + extra, false),
        130 => s130::run(2 + extra, false),
        131 => s131::run(3 + extra, false),
        132 => s132::run(3 + extra, false),
        133 => s133::run(3 + extra, false),
        134 => s134::run(2 + extra, false),
        135 => s135::run(3 + extra, false),
        136 => s136::run(3 + extra, false),
        137 => s137::run(2 + extra, false),
        138 => s138::run(2 + extra, false),
        139 => s139::run(2 + extra, false),
        140 => s140::run(2 + extra, false),
        141 => s141::run(2 + extra, false),
        142 => s142::run(2 + extra, false),
        143 => s143::run(2 + extra, false),
        144 => s144::run(2 + extra, false),
        145 => s145::run(2 + extra, false),
        146 => s146::run(2 + extra, false),
        147 => s147::run(2 + extra, false),
        148 => s148::run(2 + extra, false),
        149 => s149::run(2 + extra, false),
        150 => s150::run(2 + extra, false),
        151 => s151::run(2 + extra, false),
        152 => s152::run(2 + extra, false),
        153 => s153::run(2 + extra, false),
        154 => s154::run(2 + extra, false),
        155 => s155::run(2 + extra, false),
        156 => s156::run(2 + extra, false),
        157 => s157::run(2 + extra, false),
        158 => s158::run(2 + extra, false),
        159 => s159::run(2 + extra, false),
        160 => s160::run(2 + extra, false),
        161 => s161::run(2 + extra, false),
        162 => s162::run(2 + extra, false),
        163 => s163::run(2 + extra, false),
        164 => s164::run(2 + extra, false),
        165 => s165::run(2 + extra, false),
        166 => s166::run(2 + extra, false),
        167 => s167::run(2 + extra, false),
        168 => s168::run(2 + extra, false),
        169 => s169::run(2 + extra, false),
        170 => s170::run(2 + extra, false),
        171 => s171::run(2 + extra, false),
        172 => s172::run(2 + extra, false),
        173 => s173::run(2 + extra, false),
        174 => s174::run(2 + extra, false),
        175 => s175::run(2 + extra, false),
        176 => s176::run(2 + extra, false),
        177 => s177::run(2 + extra, false),
        178 => s178::run(2 + extra, false),
        179 => s179::run(2 + extra, false),
        180 => s180::run(2 + extra, false),
        181 => s181::run(2 + extra, false),
        182 => s182::run(2 + extra, false),
        183 => s183::run(2 + extra, false),
        184 => s184::run(2 + extra, false),
        185 => s185::run(2 + extra, false),
        186 => s186::run(2 + extra, false),
        187 => s187::run(2 + extra, false),
        188 => s188::run(2 + extra, false),
        189 => s189::run(2 + extra, false),
        190 => s190::run(2 + extra, false),
        191 => s191::run(2 + extra, false),
        192 => s192::run(2 + extra, false),
        193 => s193::run(2 + extra, false),
        194 => s194::run(2 + extra, false),
        195 => s195::run(2 + extra, false),
        196 => s196::run(2 + extra, false),
        197 => s197::run(2 + extra, false),
        198 => s198::run(2 + extra, false),
        199 => s199::run(2 + extra, false),
        200 => s200::run(3 + extra, false),
        201 => s201::run(3 + extra, false),
        202 => s202::run(3 + extra, false),
        203 => s203::run(2 + extra, false),
        204 => s204::run(3 + extra, false),
        205 => s205::run(3 + extra, false),
        _ => s206::run(2 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        19 => s19::run(k, true),
        20 => s20::run(k, true),
        21 => s21::run(k, true),
        22 => s22::run(k, true),
        23 => s23::run(k, true),
        24 => s24::run(k, true),
        25 => s25::run(k, true),
        26 => s26::run(k, true),
        27 => s27::run(k, true),
        28 => s28::run(k, true),
        29 => s29::run(k, true),
        30 => s30::run(k, true),
        31 => s31::run(k, true),
        32 => s32::run(k, true),
        33 => s33::run(k, true),
        34 => s34::run(k, true),
        35 => s35::run(k, true),
        36 => s36::run(k, true),
        37 => s37::run(k, true),
        38 => s38::run(k, true),
        39 => s39::run(k, true),
        40 => s40::run(k, true),
        41 => s41::run(k, true),
        42 => s42::run(k, true),
        43 => s43::run(k, true),
        44 => s44::run(k, true),
        45 => s45::run(k, true),
        46 => s46::run(k, true),
        47 => s47::run(k, true),
        48 => s48::run(k, true),
        49 => s49::run(k, true),
        50 => s50::run(k, true),
        51 => s51::run(k, true),
        52 => s52::run(k, true),
        53 => s53::run(k, true),
        54 => s54::run(k, true),
        55 => s55::run(k, true),
        56 => s56::run(k, true),
        57 => s57::run(k, true),
        58 => s58::run(k, true),
        59 => s59::run(k, true),
        60 => s60::run(k, true),
        61 => s61::run(k, true),
        62 => s62::run(k, true),
        63 => s63::run(k, true),
        64 => s64::run(k, true),
        65 => s65::run(k, true),
        66 => s66::run(k, true),
        67 => s67::run(k, true),
        68 => s68::run(k, true),
        69 => s69::run(k, true),
        70 => s70::run(k, true),
        71 => s71::run(k, true),
        72 => s72::run(k, true),
        73 => s73::run(k, true),
        74 => s74::run(k, true),
        75 => s75::run(k, true),
        76 => s76::run(k, true),
        77 => s77::run(k, true),
        78 => s78::run(k, true),
        79 => s79::run(k, true),
        80 => s80::run(k, true),
        81 => s81::run(k, true),
        82 => s82::run(k, true),
        83 => s83::run(k, true),
        84 => s84::run(k, true),
        85 => s85::run(k, true),
        86 => s86::run(k, true),
        87 => s87::run(k, true),
        88 => s88::run(k, true),
        89 => s89::run(k, true),
        90 => s90::run(k, true),
        91 => s91::run(k, true),
        92 => s92::run(k, true),
        93 => s93::run(k, true),
        94 => s94::run(k, true),
        95 => s95::run(k, true),
        96 => s96::run(k, true),
        97 => s97::run(k, true),
        98 => s98::run(k, true),
        99 => s99::run(k, true),
        100 => s100::run(k, true),
        101 => s101::run(k, true),
        102 => s102::run(k, true),
        103 => s103::run(k, true),
        104 => s104::run(k, true),
        105 => s105::run(k, true),
        106 => s106::run(k, true),
        107 => s107::run(k, true),
        108 => s108::run(k, true),
        109 => s109::run(k, true),
        110 => s110::run(k, true),
        111 => s111::run(k, true),
        112 => s112::run(k, true),
        113 => s113::run(k, true),
        114 => s114::run(k, true),
        115 => s115::run(k, true),
        116 => s116::run(k, true),
        117 => s117::run(k, true),
        118 => s118::run(k, true),
        119 => s119::run(k, true),
        120 => s120::run(k, true),
        121 => s121::run(k, true),
        122 => s122::run(k, true),
        123 => s123::run(k, true),
        124 => s124::run(k, true),
        125 => s125::run(k, true),
        126 => s126::run(k, true),
        127 => s127::run(k, true),
        128 => s128::run(k, true),
        129 => s129::run(k, true),
        130 => s130::run(k, true),
        131 => s131::run(k, true),
        132 => s132::run(k, true),
        133 => s133::run(k, true),
        134 => s134::run(k, true),
        135 => s135::run(k, true),
        136 => s136::run(k, true),
        137 => s137::run(k, true),
        138 => s138::run(k, true),
        139 => s139::run(k, true),
        140 => s140::run(k, true),
        141 => s141::run(k, true),
        142 => s142::run(k, true),
        143 => s143::run(k, true),
        144 => s144::run(k, true),
        145 => s145::run(k, true),
        146 => s146::run(k, true),
        147 => s147::run(k, true),
        148 => s148::run(k, true),
        149 => s149::run(k, true),
        150 => s150::run(k, true),
        151 => s151::run(k, true),
        152 => s152::run(k, true),
        153 => s153::run(k, true),
        154 => s154::run(k, true),
        155 => s155::run(k, true),
        156 => s156::run(k, true),
        157 => s157::run(k, true),
        158 => s158::run(k, true),
        159 => s159::run(k, true),
        160 => s160::run(k, true),
        161 => s161::run(k, true),
        162 => s162::run(k, true),
        163 => s163::run(k, true),
        164 => s164::run(k, true),
        165 => s165::run(k, true),
        166 => s166::run(k, true),
        167 => s167::run(k, true),
        168 => s168::run(k, true),
        169 => s169::run(k, true),
        170 => s170::run(k, true),
        171 => s171::run(k, true),
        172 => s172::run(k, true),
        173 => s173::run(k, true),
        174 => s174::run(k, true),
        175 => s175::run(k, true),
        176 => s176::run(k, true),
        177 => s177::run(k, true),
        178 => s178::run(k, true),
        179 => s179::run(k, true),
        180 => s180::run(k, true),
        181 => s181::run(k, true),
        182 => s182::run(k, true),
        183 => s183::run(k, true),
        184 => s184::run(k, true),
        185 => s185::run(k, true),
        186 => s186::run(k, true),
        187 => s187::run(k, true),
        188 => s188::run(k, true),
        189 => s189::run(k, true),
        190 => s190::run(k, true),
        191 => s191::run(k, true),
        192 => s192::run(k, true),
        193 => s193::run(k, true),
        194 => s194::run(k, true),
        195 => s195::run(k, true),
        196 => s196::run(k, true),
        197 => s197::run(k, true),
        198 => s198::run(k, true),
        199 => s199::run(k, true),
        200 => s200::run(k, true),
        201 => s201::run(k, true),
        202 => s202::run(k, true),
        203 => s203::run(k, true),
        204 => s204::run(k, true),
        205 => s205::run(k, true),
        _ => s206::run(k, true),
    }
}
