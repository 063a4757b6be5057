// Generated by tools/genr.py; do not edit.
pub mod s0 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        pub z: N,
        #[builder(default = "N(77)")]
        pub d: N,
        pub b: Option<N>,
        #[builder(setter(name = "z2"))]
        pub a: u32,
        pub y: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub z: Option<N>,
        pub d: Option<N>,
        pub b: Option<Option<N>>,
        pub a: Option<u32>,
        pub y: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z: Default::default(),
            d: Default::default(),
            b: Default::default(),
            a: Default::default(),
            y: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            z: match m.z.clone() { Some(v) => v, None => { return Err("z") } },
            d: match m.d.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            y: match m.y.clone() { Some(v) => v, None => { return Err("y") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z == want.z, 100);
                check(got.d == want.d, 101);
                check(got.b == want.b, 102);
                check(got.a == want.a, 103);
                check(got.y == want.y, 104);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z == m.z, 200);
        check(b.d == m.d, 201);
        check(b.b == m.b, 202);
        check(b.a == m.a, 203);
        check(b.y == m.y, 204);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.z = x.clone(); m.z = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.d = x.clone(); m.d = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.y = x.clone(); m.y = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.z(x.clone()); m.z = Some(x); }
                1 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.z2(x.clone()); m.a = Some(x); }
                4 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.y(x.clone()); m.y = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s1 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(skip))]
        pub q: u32,
        pub b: Cp,
        #[builder(default)]
        pub a: Cp,
        #[builder(field(ty = "Cp"))]
        pub c0: Cp,
        #[builder(setter(strip_option))]
        pub a2: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub a: Option<Cp>,
        pub c0: Cp,
        pub a2: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            c0: Default::default(),
            a2: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            q: Default::default(),
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            c0: m.c0.clone(),
            a2: match m.a2.clone() { Some(v) => v, None => { return Err("a2") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.q == want.q, 100);
                check(got.b == want.b, 101);
                check(got.a == want.a, 102);
                check(got.c0 == want.c0, 103);
                check(got.a2 == want.a2, 104);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 201);
        check(b.a == m.a, 202);
        check(b.c0 == m.c0, 203);
        check(b.a2 == m.a2, 204);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Cp = Cp(any_u32("v"));
            b.c0 = x.clone(); m.c0 = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a2 = x.clone(); m.a2 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.c0(x.clone()); m.c0 = x; }
                3 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a2(x.clone()); m.a2 = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s2 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub v: Vec<N>,
        #[builder(setter(into))]
        pub w: N,
        #[builder(setter(prefix = "set"))]
        pub t: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub v: Option<Vec<N>>,
        pub w: Option<N>,
        pub t: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            v: Default::default(),
            w: Default::default(),
            t: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            v: match m.v.clone() { Some(v) => v, None => { return Err("v") } },
            w: match m.w.clone() { Some(v) => v, None => { return Err("w") } },
            t: match m.t.clone() { Some(v) => v, None => { return Err("t") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.v == want.v, 100);
                check(got.w == want.w, 101);
                check(got.t == want.t, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.v == m.v, 200);
        check(b.w == m.w, 201);
        check(b.t == m.t, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.v = x.clone(); m.v = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.w = x.clone(); m.w = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.t = x.clone(); m.t = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let _: &mut SBuilder = b.v(x.clone()); m.v = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let _: &mut SBuilder = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.v, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.w(x.clone()); m.w = Some(x); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.w(x.clone()); m.w = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.set_t(x.clone()); m.t = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s3 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub d: N,
        pub last: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub d: Option<N>,
        pub last: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            d: Default::default(),
            last: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            d: match m.d.clone() { Some(v) => v, None => N(77) },
            last: match m.last.clone() { Some(v) => v, None => { return Err("last") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.d == want.d, 100);
                check(got.last == want.last, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.d == m.d, 200);
        check(b.last == m.last, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.d = x.clone(); m.d = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.last = x.clone(); m.last = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.last(x.clone()); m.last = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s4 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        pub first: u32,
        #[builder(default)]
        pub d: N,
        #[builder(default)]
        pub e: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub first: Option<u32>,
        pub d: Option<N>,
        pub e: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            first: Default::default(),
            d: Default::default(),
            e: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            first: match m.first.clone() { Some(v) => v, None => { return Err("first") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
            e: match m.e.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.first == want.first, 100);
                check(got.d == want.d, 101);
                check(got.e == want.e, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.first == m.first, 200);
        check(b.d == m.d, 201);
        check(b.e == m.e, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.first = x.clone(); m.first = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.d = x.clone(); m.d = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.e = x.clone(); m.e = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.first(x.clone()); m.first = Some(x); }
                1 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.d(x.clone()); m.d = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.e(x.clone()); m.e = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s5 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        pub b: u32,
        #[builder(default)]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s6 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "mutable", default)]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s7 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(try_setter)]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(_) => { reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s8 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(field(build = "N(5)"))]
        pub a: N,
        pub b: u32,
        pub k: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub k: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            k: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: N(5),
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            k: match m.k.clone() { Some(v) => v, None => { return Err("k") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.k == want.k, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.k == m.k, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.k = x.clone(); m.k = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.k(x.clone()); m.k = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s9 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        pub a: Option<N>,
        #[builder(setter(strip_option))]
        pub b: Option<N>,
        #[builder(setter(strip_option))]
        pub c: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Option<N>>,
        pub c: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(Some(x)); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s10 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub b: Cp,
        #[builder(pattern = "owned", default)]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub c: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub a: Option<Cp>,
        pub c: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.a == m.a, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s11 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable")]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub b: Cp,
        #[builder(pattern = "immutable", default)]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub c: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub a: Option<Cp>,
        pub c: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.a == m.a, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s12 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "mutable", setter(skip))]
    pub struct S {
        #[builder(setter)]
        pub b: Cp,
        pub a: Cp,
        #[builder(setter(into))]
        pub k: Cp,
        #[builder(setter(skip = false))]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub k: Option<Cp>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            k: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: Default::default(),
            k: match m.k.clone() { Some(v) => v, None => { return Err("k") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
                check(got.k == want.k, 102);
                check(got.c == want.c, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.k == m.k, 202);
        check(b.c == m.c, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.k = x.clone(); m.k = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.k(x.clone()); m.k = Some(x); }
                2 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let _: &mut SBuilder = b.k(x.clone()); m.k = Some(xm); check(convs() == c0 + 1, 80); }
                3 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s13 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        pub z: N,
        #[builder(default = "N(77)")]
        pub d: N,
        pub b: Option<N>,
        #[builder(setter(name = "z2"))]
        pub a: u32,
        pub y: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub z: Option<N>,
        pub d: Option<N>,
        pub b: Option<Option<N>>,
        pub a: Option<u32>,
        pub y: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z: Default::default(),
            d: Default::default(),
            b: Default::default(),
            a: Default::default(),
            y: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            z: match m.z.clone() { Some(v) => v, None => { return Err("z") } },
            d: match m.d.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            y: match m.y.clone() { Some(v) => v, None => { return Err("y") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z == want.z, 100);
                check(got.d == want.d, 101);
                check(got.b == want.b, 102);
                check(got.a == want.a, 103);
                check(got.y == want.y, 104);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z == m.z, 200);
        check(b.d == m.d, 201);
        check(b.b == m.b, 202);
        check(b.a == m.a, 203);
        check(b.y == m.y, 204);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.z = x.clone(); m.z = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.d = x.clone(); m.d = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.y = x.clone(); m.y = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); b = b.z(x.clone()); m.z = Some(x); }
                1 => { let x: N = N(any_u32("v")); b = b.d(x.clone()); m.d = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x: u32 = any_u32("v"); b = b.z2(x.clone()); m.a = Some(x); }
                4 => { let x: Cp = Cp(any_u32("v")); b = b.y(x.clone()); m.y = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s14 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(skip))]
        pub q: u32,
        pub b: Cp,
        #[builder(default)]
        pub a: Cp,
        #[builder(field(ty = "Cp"))]
        pub c0: Cp,
        #[builder(setter(strip_option))]
        pub a2: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub a: Option<Cp>,
        pub c0: Cp,
        pub a2: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            c0: Default::default(),
            a2: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            q: Default::default(),
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            c0: m.c0.clone(),
            a2: match m.a2.clone() { Some(v) => v, None => { return Err("a2") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.q == want.q, 100);
                check(got.b == want.b, 101);
                check(got.a == want.a, 102);
                check(got.c0 == want.c0, 103);
                check(got.a2 == want.a2, 104);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 201);
        check(b.a == m.a, 202);
        check(b.c0 == m.c0, 203);
        check(b.a2 == m.a2, 204);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Cp = Cp(any_u32("v"));
            b.c0 = x.clone(); m.c0 = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a2 = x.clone(); m.a2 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.c0(x.clone()); m.c0 = x; }
                3 => { let x: Cp = Cp(any_u32("v")); b = b.a2(x.clone()); m.a2 = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s15 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub v: Vec<N>,
        #[builder(setter(into))]
        pub w: N,
        #[builder(setter(prefix = "set"))]
        pub t: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub v: Option<Vec<N>>,
        pub w: Option<N>,
        pub t: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            v: Default::default(),
            w: Default::default(),
            t: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            v: match m.v.clone() { Some(v) => v, None => { return Err("v") } },
            w: match m.w.clone() { Some(v) => v, None => { return Err("w") } },
            t: match m.t.clone() { Some(v) => v, None => { return Err("t") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.v == want.v, 100);
                check(got.w == want.w, 101);
                check(got.t == want.t, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.v == m.v, 200);
        check(b.w == m.w, 201);
        check(b.t == m.t, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.v = x.clone(); m.v = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.w = x.clone(); m.w = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.t = x.clone(); m.t = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; b = b.v(x.clone()); m.v = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); b = b.item(x.clone()); { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.v, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: N = N(any_u32("v")); b = b.w(x.clone()); m.w = Some(x); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); b = b.w(x.clone()); m.w = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x: u32 = any_u32("v"); b = b.set_t(x.clone()); m.t = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s16 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub d: N,
        pub last: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub d: Option<N>,
        pub last: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            d: Default::default(),
            last: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            d: match m.d.clone() { Some(v) => v, None => N(77) },
            last: match m.last.clone() { Some(v) => v, None => { return Err("last") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.d == want.d, 100);
                check(got.last == want.last, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.d == m.d, 200);
        check(b.last == m.last, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.d = x.clone(); m.d = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.last = x.clone(); m.last = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: N = N(any_u32("v")); b = b.d(x.clone()); m.d = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.last(x.clone()); m.last = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s17 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        pub first: u32,
        #[builder(default)]
        pub d: N,
        #[builder(default)]
        pub e: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub first: Option<u32>,
        pub d: Option<N>,
        pub e: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            first: Default::default(),
            d: Default::default(),
            e: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            first: match m.first.clone() { Some(v) => v, None => { return Err("first") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
            e: match m.e.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.first == want.first, 100);
                check(got.d == want.d, 101);
                check(got.e == want.e, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.first == m.first, 200);
        check(b.d == m.d, 201);
        check(b.e == m.e, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.first = x.clone(); m.first = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.d = x.clone(); m.d = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.e = x.clone(); m.e = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); b = b.first(x.clone()); m.first = Some(x); }
                1 => { let x: N = N(any_u32("v")); b = b.d(x.clone()); m.d = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.e(x.clone()); m.e = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s18 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        pub b: u32,
        #[builder(default)]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s19 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "owned", default)]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s20 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(try_setter)]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); match b.try_a(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); return; } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); match b.try_b(x.clone()) { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); return; } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s21 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(field(build = "N(5)"))]
        pub a: N,
        pub b: u32,
        pub k: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub k: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            k: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: N(5),
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            k: match m.k.clone() { Some(v) => v, None => { return Err("k") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.k == want.k, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.k == m.k, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.k = x.clone(); m.k = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); b = b.b(x.clone()); m.b = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.k(x.clone()); m.k = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s22 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        pub a: Option<N>,
        #[builder(setter(strip_option))]
        pub b: Option<N>,
        #[builder(setter(strip_option))]
        pub c: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Option<N>>,
        pub c: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.a(x.clone()); m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); b = b.b(x.clone()); m.b = Some(Some(x)); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s23 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub b: Cp,
        #[builder(pattern = "mutable", default)]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub c: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub a: Option<Cp>,
        pub c: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.a == m.a, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s24 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned")]
    pub struct S {
        #[builder(pattern = "immutable")]
        pub b: Cp,
        #[builder(pattern = "immutable", default)]
        pub a: Cp,
        #[builder(pattern = "immutable")]
        pub c: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub a: Option<Cp>,
        pub c: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.a == m.a, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s25 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "owned", setter(skip))]
    pub struct S {
        #[builder(setter)]
        pub b: Cp,
        pub a: Cp,
        #[builder(setter(into))]
        pub k: Cp,
        #[builder(setter(skip = false))]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub k: Option<Cp>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            k: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: Default::default(),
            k: match m.k.clone() { Some(v) => v, None => { return Err("k") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
                check(got.k == want.k, 102);
                check(got.c == want.c, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.k == m.k, 202);
        check(b.c == m.c, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.k = x.clone(); m.k = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.k(x.clone()); m.k = Some(x); }
                2 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); b = b.k(x.clone()); m.k = Some(xm); check(convs() == c0 + 1, 80); }
                3 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(b, &m);
    }
}
pub mod s26 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        pub z: N,
        #[builder(default = "N(77)")]
        pub d: N,
        pub b: Option<N>,
        #[builder(setter(name = "z2"))]
        pub a: u32,
        pub y: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub z: Option<N>,
        pub d: Option<N>,
        pub b: Option<Option<N>>,
        pub a: Option<u32>,
        pub y: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            z: Default::default(),
            d: Default::default(),
            b: Default::default(),
            a: Default::default(),
            y: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            z: match m.z.clone() { Some(v) => v, None => { return Err("z") } },
            d: match m.d.clone() { Some(v) => v, None => N(77) },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            y: match m.y.clone() { Some(v) => v, None => { return Err("y") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.z == want.z, 100);
                check(got.d == want.d, 101);
                check(got.b == want.b, 102);
                check(got.a == want.a, 103);
                check(got.y == want.y, 104);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.z == m.z, 200);
        check(b.d == m.d, 201);
        check(b.b == m.b, 202);
        check(b.a == m.a, 203);
        check(b.y == m.y, 204);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.z = x.clone(); m.z = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.d = x.clone(); m.d = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.y = x.clone(); m.y = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.z(x.clone()); slots(&b, &m); b = nb; m.z = Some(x); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.z2(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                4 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.y(x.clone()); slots(&b, &m); b = nb; m.y = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s27 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(skip))]
        pub q: u32,
        pub b: Cp,
        #[builder(default)]
        pub a: Cp,
        #[builder(field(ty = "Cp"))]
        pub c0: Cp,
        #[builder(setter(strip_option))]
        pub a2: Option<Cp>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub a: Option<Cp>,
        pub c0: Cp,
        pub a2: Option<Option<Cp>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            c0: Default::default(),
            a2: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            q: Default::default(),
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            c0: m.c0.clone(),
            a2: match m.a2.clone() { Some(v) => v, None => { return Err("a2") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.q == want.q, 100);
                check(got.b == want.b, 101);
                check(got.a == want.a, 102);
                check(got.c0 == want.c0, 103);
                check(got.a2 == want.a2, 104);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 201);
        check(b.a == m.a, 202);
        check(b.c0 == m.c0, 203);
        check(b.a2 == m.a2, 204);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Cp = Cp(any_u32("v"));
            b.c0 = x.clone(); m.c0 = x;
            let x: Option<Option<Cp>> = if flag("set") { Some(if flag("some") { Some(Cp(any_u32("v"))) } else { None }) } else { None };
            b.a2 = x.clone(); m.a2 = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.c0(x.clone()); slots(&b, &m); b = nb; m.c0 = x; }
                3 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.a2(x.clone()); slots(&b, &m); b = nb; m.a2 = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s28 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(setter(each = "item"))]
        pub v: Vec<N>,
        #[builder(setter(into))]
        pub w: N,
        #[builder(setter(prefix = "set"))]
        pub t: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub v: Option<Vec<N>>,
        pub w: Option<N>,
        pub t: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            v: Default::default(),
            w: Default::default(),
            t: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            v: match m.v.clone() { Some(v) => v, None => { return Err("v") } },
            w: match m.w.clone() { Some(v) => v, None => { return Err("w") } },
            t: match m.t.clone() { Some(v) => v, None => { return Err("t") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.v == want.v, 100);
                check(got.w == want.w, 101);
                check(got.t == want.t, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.v == m.v, 200);
        check(b.w == m.w, 201);
        check(b.t == m.t, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Vec<N>> = if flag("set") { Some(match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }) } else { None };
            b.v = x.clone(); m.v = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.w = x.clone(); m.w = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.t = x.clone(); m.t = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 6) {
                0 => { let x: Vec<N> = match below("len", 3) { 0 => vec![], 1 => vec![N(any_u32("e0"))], _ => vec![N(any_u32("e0")), N(any_u32("e1"))] }; let nb: SBuilder = b.v(x.clone()); slots(&b, &m); b = nb; m.v = Some(x); }
                1 => { let x = N(any_u32("it")); let xm: N = x.clone(); let c0 = convs(); let nb: SBuilder = b.item(x.clone()); slots(&b, &m); b = nb; { let c: &mut Vec<N> = Option::get_or_insert_with(&mut m.v, Default::default); c.push(xm.clone()); } check(convs() == c0 + 0, 85); }
                2 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.w(x.clone()); slots(&b, &m); b = nb; m.w = Some(x); }
                3 => { let x = any_u8("x"); let xm: N = N(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.w(x.clone()); slots(&b, &m); b = nb; m.w = Some(xm); check(convs() == c0 + 1, 80); }
                4 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.set_t(x.clone()); slots(&b, &m); b = nb; m.t = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s29 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(default = "N(77)")]
        pub d: N,
        pub last: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub d: Option<N>,
        pub last: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            d: Default::default(),
            last: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            d: match m.d.clone() { Some(v) => v, None => N(77) },
            last: match m.last.clone() { Some(v) => v, None => { return Err("last") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.d == want.d, 100);
                check(got.last == want.last, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.d == m.d, 200);
        check(b.last == m.last, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.d = x.clone(); m.d = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.last = x.clone(); m.last = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 3) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.last(x.clone()); slots(&b, &m); b = nb; m.last = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s30 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        pub first: u32,
        #[builder(default)]
        pub d: N,
        #[builder(default)]
        pub e: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub first: Option<u32>,
        pub d: Option<N>,
        pub e: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            first: Default::default(),
            d: Default::default(),
            e: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            first: match m.first.clone() { Some(v) => v, None => { return Err("first") } },
            d: match m.d.clone() { Some(v) => v, None => Default::default() },
            e: match m.e.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.first == want.first, 100);
                check(got.d == want.d, 101);
                check(got.e == want.e, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.first == m.first, 200);
        check(b.d == m.d, 201);
        check(b.e == m.e, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.first = x.clone(); m.first = x;
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.d = x.clone(); m.d = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.e = x.clone(); m.e = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.first(x.clone()); slots(&b, &m); b = nb; m.first = Some(x); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.d(x.clone()); slots(&b, &m); b = nb; m.d = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.e(x.clone()); slots(&b, &m); b = nb; m.e = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s31 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", default = "S { a: N(1), b: 2, c: Some(N(3)) }")]
    pub struct S {
        pub a: N,
        pub b: u32,
        #[builder(default)]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = S { a: N(1), b: 2, c: Some(N(3)) };
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => Default::default() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s32 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq, Default)]
    #[builder(pattern = "immutable", default)]
    pub struct S {
        pub a: N,
        pub b: u32,
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        let dflt: S = Default::default();
        let _ = &dflt;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => dflt.a.clone() },
            b: match m.b.clone() { Some(v) => v, None => dflt.b.clone() },
            c: match m.c.clone() { Some(v) => v, None => dflt.c.clone() },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s33 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(try_setter)]
        pub a: N,
        #[builder(try_setter)]
        pub b: u32,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x = any_u16("x"); let xm: Result<N, ()> = match n_of_u16(x) { Ok(v) => Ok(N(v)), Err(_) => Err(()) }; let c0 = convs(); let r = b.try_a(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.a = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|e: Bad, x| e == Bad(x), e, x), 83); reach(4); } } check(convs() == c0 + 1, 81); }
                2 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                3 => { let x = any_u64("x"); let xm: Result<u32, ()> = if x < 1u64 << 32 { Ok(x as u32) } else { Err(()) }; let c0 = convs(); let r = b.try_b(x.clone()); slots(&b, &m); match r { Ok(nb) => { b = nb; reach(3); check(xm.is_ok(), 84); if let Ok(v) = xm { m.b = Some(v); } } Err(e) => { fn ck<E, X>(f: impl Fn(E, X) -> bool, e: E, x: X) -> bool { f(e, x) } check(xm.is_err(), 82); check(ck(|_e, _x| true, e, x), 83); reach(4); } } check(convs() == c0 + 0, 81); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s34 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(field(build = "N(5)"))]
        pub a: N,
        pub b: u32,
        pub k: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<N>,
        pub b: Option<u32>,
        pub k: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            k: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: N(5),
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            k: match m.k.clone() { Some(v) => v, None => { return Err("k") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.k == want.k, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.k == m.k, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<N> = if flag("set") { Some(N(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<u32> = if flag("set") { Some(any_u32("v")) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.k = x.clone(); m.k = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: u32 = any_u32("v"); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.k(x.clone()); slots(&b, &m); b = nb; m.k = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s35 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        pub a: Option<N>,
        #[builder(setter(strip_option))]
        pub b: Option<N>,
        #[builder(setter(strip_option))]
        pub c: Option<Option<N>>,
    }
    #[derive(Clone)]
    pub struct M {
        pub a: Option<Option<N>>,
        pub b: Option<Option<N>>,
        pub c: Option<Option<Option<N>>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            a: match m.a.clone() { Some(v) => v, None => { return Err("a") } },
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.a == want.a, 100);
                check(got.b == want.b, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.a == m.a, 200);
        check(b.b == m.b, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Option<Option<N>>> = if flag("set") { Some(match below("oo", 3) { 0 => None, 1 => Some(None), _ => Some(Some(N(any_u32("v")))) }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.a(x.clone()); slots(&b, &m); b = nb; m.a = Some(x); }
                1 => { let x: N = N(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(Some(x)); }
                2 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(Some(x)); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s36 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "mutable")]
        pub b: Cp,
        #[builder(pattern = "mutable", default)]
        pub a: Cp,
        #[builder(pattern = "mutable")]
        pub c: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub a: Option<Cp>,
        pub c: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.a == m.a, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.b(x.clone()); m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.a(x.clone()); m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); let _: &mut SBuilder = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s37 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable")]
    pub struct S {
        #[builder(pattern = "owned")]
        pub b: Cp,
        #[builder(pattern = "owned", default)]
        pub a: Cp,
        #[builder(pattern = "owned")]
        pub c: Cp,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub a: Option<Cp>,
        pub c: Option<Cp>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            a: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: match m.a.clone() { Some(v) => v, None => Default::default() },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
                check(got.c == want.c, 102);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.a == m.a, 201);
        check(b.c == m.c, 202);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.a = x.clone(); m.a = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 4) {
                0 => { let x: Cp = Cp(any_u32("v")); b = b.b(x.clone()); m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); b = b.a(x.clone()); m.a = Some(x); }
                2 => { let x: Cp = Cp(any_u32("v")); b = b.c(x.clone()); m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub mod s38 {
    use super::*;
    #[derive(Builder, Clone, Debug, PartialEq)]
    #[builder(pattern = "immutable", setter(skip))]
    pub struct S {
        #[builder(setter)]
        pub b: Cp,
        pub a: Cp,
        #[builder(setter(into))]
        pub k: Cp,
        #[builder(setter(skip = false))]
        pub c: Option<N>,
    }
    #[derive(Clone)]
    pub struct M {
        pub b: Option<Cp>,
        pub k: Option<Cp>,
        pub c: Option<Option<N>>,
        pub zz_: (),
    }
    pub fn empty() -> M {
        M {
            b: Default::default(),
            k: Default::default(),
            c: Default::default(),
            zz_: (),
        }
    }
    /// What the documentation says a build of `m` gives.
    pub fn expect(m: &M) -> Result<S, &'static str> {
        let _ = m;
        Ok(S {
            b: match m.b.clone() { Some(v) => v, None => { return Err("b") } },
            a: Default::default(),
            k: match m.k.clone() { Some(v) => v, None => { return Err("k") } },
            c: match m.c.clone() { Some(v) => v, None => { return Err("c") } },
        })
    }
    pub fn verify(b: &SBuilder, m: &M) {
        match (b.build(), expect(m)) {
            (Ok(got), Ok(want)) => {
                reach(1);
                check(got.b == want.b, 100);
                check(got.a == want.a, 101);
                check(got.k == want.k, 102);
                check(got.c == want.c, 103);
            }
            (Err(SBuilderError::UninitializedField(got)), Err(want)) => {
                reach(2);
                check(got == want, 90);
            }
            (Err(_), _) => fail("build failed although every required field is set, or with the wrong error"),
            (Ok(_), Err(_)) => fail("build succeeded although a required field is unset"),
        }
    }
    pub fn slots(b: &SBuilder, m: &M) {
        let _ = (b, m);
        check(b.b == m.b, 200);
        check(b.k == m.k, 202);
        check(b.c == m.c, 203);
    }
    /// `wild`: start from an arbitrary builder state instead of an empty one. A builder has no state
    /// but its slots, so one step from there covers histories of any length.
    pub fn run(k: usize, wild: bool) {
        let mut b: SBuilder = SBuilder::default();
        let mut m = empty();
        if wild {
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.b = x.clone(); m.b = x;
            let x: Option<Cp> = if flag("set") { Some(Cp(any_u32("v"))) } else { None };
            b.k = x.clone(); m.k = x;
            let x: Option<Option<N>> = if flag("set") { Some(if flag("some") { Some(N(any_u32("v"))) } else { None }) } else { None };
            b.c = x.clone(); m.c = x;
            reach(5);
        }
        slots(&b, &m);
        for _ in 0..k {
            match below("op", 5) {
                0 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.b(x.clone()); slots(&b, &m); b = nb; m.b = Some(x); }
                1 => { let x: Cp = Cp(any_u32("v")); let nb: SBuilder = b.k(x.clone()); slots(&b, &m); b = nb; m.k = Some(x); }
                2 => { let x = any_u8("x"); let xm: Cp = Cp(n_of_u8(x)); let c0 = convs(); let nb: SBuilder = b.k(x.clone()); slots(&b, &m); b = nb; m.k = Some(xm); check(convs() == c0 + 1, 80); }
                3 => { let x: Option<N> = if flag("some") { Some(N(any_u32("v"))) } else { None }; let nb: SBuilder = b.c(x.clone()); slots(&b, &m); b = nb; m.c = Some(x); }
                _ => { break; }
            }
            slots(&b, &m);
        }
        let _ = &mut m;
        let _ = &mut b;
        verify(&b, &m);
        verify(&b, &m);
        slots(&b, &m);
    }
}
pub const COUNT: usize = 39;
pub fn grid(extra: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(4 + extra, false),
        1 => s1::run(4 + extra, false),
        2 => s2::run(3 + extra, false),
        3 => s3::run(2 + extra, false),
        4 => s4::run(2 + extra, false),
        5 => s5::run(3 + extra, false),
        6 => s6::run(3 + extra, false),
        7 => s7::run(3 + extra, false),
        8 => s8::run(3 + extra, false),
        9 => s9::run(3 + extra, false),
        10 => s10::run(3 + extra, false),
        11 => s11::run(3 + extra, false),
        12 => s12::run(3 + extra, false),
        13 => s13::run(4 + extra, false),
        14 => s14::run(4 + extra, false),
        15 => s15::run(3 + extra, false),
        16 => s16::run(2 + extra, false),
        17 => s17::run(2 + extra, false),
        18 => s18::run(3 + extra, false),
        19 => s19::run(3 + extra, false),
        20 => s20::run(3 + extra, false),
        21 => s21::run(3 + extra, false),
        22 => s22::run(3 + extra, false),
        23 => s23::run(3 + extra, false),
        24 => s24::run(3 + extra, false),
        25 => s25::run(3 + extra, false),
        26 => s26::run(4 + extra, false),
        27 => s27::run(4 + extra, false),
        28 => s28::run(3 + extra, false),
        29 => s29::run(2 + extra, false),
        30 => s30::run(2 + extra, false),
        31 => s31::run(3 + extra, false),
        32 => s32::run(3 + extra, false),
        33 => s33::run(3 + extra, false),
        34 => s34::run(3 + extra, false),
        35 => s35::run(3 + extra, false),
        36 => s36::run(3 + extra, false),
        37 => s37::run(3 + extra, false),
        _ => s38::run(3 + extra, false),
    }
}
pub fn step(k: usize) {
    reset();
    match choice("cfg", COUNT) {
        0 => s0::run(k, true),
        1 => s1::run(k, true),
        2 => s2::run(k, true),
        3 => s3::run(k, true),
        4 => s4::run(k, true),
        5 => s5::run(k, true),
        6 => s6::run(k, true),
        7 => s7::run(k, true),
        8 => s8::run(k, true),
        9 => s9::run(k, true),
        10 => s10::run(k, true),
        11 => s11::run(k, true),
        12 => s12::run(k, true),
        13 => s13::run(k, true),
        14 => s14::run(k, true),
        15 => s15::run(k, true),
        16 => s16::run(k, true),
        17 => s17::run(k, true),
        18 => s18::run(k, true),
        19 => s19::run(k, true),
        20 => s20::run(k, true),
        21 => s21::run(k, true),
        22 => s22::run(k, true),
        23 => s23::run(k, true),
        24 => s24::run(k, true),
        25 => s25::run(k, true),
        26 => s26::run(k, true),
        27 => s27::run(k, true),
        28 => s28::run(k, true),
        29 => s29::run(k, true),
        30 => s30::run(k, true),
        31 => s31::run(k, true),
        32 => s32::run(k, true),
        33 => s33::run(k, true),
        34 => s34::run(k, true),
        35 => s35::run(k, true),
        36 => s36::run(k, true),
        37 => s37::run(k, true),
        _ => s38::run(k, true),
    }
}
